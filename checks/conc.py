"""Concurrency rules over the event CFGs: lock sets, condition waits, wake-ups.

Shared by several properties."""
import re
from pfa import *

SYNC_T = re.compile(r'^(mutable )?(pfi::concurrent::(mutex|r_mutex|rw_mutex|mutex_base|condition)|std::(mutex|recursive_mutex|timed_mutex|recursive_timed_mutex|shared_timed_mutex|condition_variable|condition_variable_any|_V2::condition_variable_any))$')
MUTEX_T = re.compile(r'(mutex)$')
COND_T = re.compile(r'(condition|condition_variable|condition_variable_any)$')
NONREC_T = re.compile(r'^(pfi::concurrent::mutex|std::mutex|std::timed_mutex)$')


def is_sync(t):
    return bool(SYNC_T.match(strip_cv(t)))


class Ev(object):
    __slots__ = ('kind', 'lock', 'guard', 'cond', 'i', 'timed', 'mode', 'all', 'pred')

    def __init__(self, kind, i, lock=None, guard=None, cond=None, timed=False, mode='x', all=False, pred=False):
        self.kind = kind
        self.i = i
        self.lock = lock
        self.guard = guard
        self.cond = cond
        self.timed = timed
        self.mode = mode
        self.all = all
        self.pred = pred


def event(f, i):
    """synchronisation event of an instruction, or None"""
    if not i.iscall:
        return None
    c = i.callee
    if not c:
        return None
    if c == 'pfi::concurrent::scoped_lock::scoped_lock':
        if 'unique_ptr' in i.dem:
            return Ev('acq', i, lock=('rwguard', i.ops[1]), guard=f.path(i.ops[0]), mode='t')
        return Ev('acq', i, lock=f.path(i.ops[1]), guard=f.path(i.ops[0]))
    if c == 'pfi::concurrent::scoped_lock::~scoped_lock':
        return Ev('relg', i, guard=f.path(i.ops[0]))
    if c.startswith('pfi::concurrent::scoped_rwlock::scoped_rwlock'):
        if len(i.ops) < 3:
            return None
        return Ev('acq', i, lock=f.path(i.ops[1]), guard=f.path(i.ops[0]), mode='r' if 'rlock' in i.dem else 'x')
    if c.startswith('pfi::concurrent::scoped_rwlock::~'):
        return Ev('relg', i, guard=f.path(i.ops[0]))
    if c == 'pfi::concurrent::mutex_base::lock' or re.match(r'^std::(recursive_|timed_|recursive_timed_)?mutex::lock$', c):
        return Ev('acq', i, lock=f.path(i.ops[0]))
    if c == 'pfi::concurrent::mutex_base::unlock' or re.match(r'^std::(recursive_|timed_|recursive_timed_)?mutex::unlock$', c):
        return Ev('rel', i, lock=f.path(i.ops[0]))
    if c in ('pfi::concurrent::rw_mutex::read_lock', 'pfi::concurrent::rw_mutex::write_lock'):
        return Ev('acq', i, lock=f.path(i.ops[0]), mode='r' if 'read' in c else 'x')
    if c == 'pfi::concurrent::rw_mutex::unlock':
        return Ev('rel', i, lock=f.path(i.ops[0]))
    if c == 'std::lock_guard::lock_guard' or c == 'std::unique_lock::unique_lock':
        if len(i.ops) >= 2 and 'defer_lock' not in i.dem and 'unique_lock<std::mutex>&&' not in i.dem:
            return Ev('acq', i, lock=f.path(i.ops[1]), guard=f.path(i.ops[0]))
        return None
    if c in ('std::lock_guard::~lock_guard', 'std::unique_lock::~unique_lock'):
        return Ev('relg', i, guard=f.path(i.ops[0]))
    if c == 'std::unique_lock::unlock':
        return Ev('unlockg', i, guard=f.path(i.ops[0]))
    if c == 'std::unique_lock::lock':
        return Ev('lockg', i, guard=f.path(i.ops[0]))
    if c == 'pfi::concurrent::condition::wait':
        return Ev('wait', i, cond=f.path(i.ops[0]), lock=f.path(i.ops[1]), timed=len(i.ops) > 2)
    m = re.match(r'^std::(_V2::)?condition_variable(_any)?::(wait|wait_for|wait_until)$', c)
    if m:
        n = 2 if m.group(3) == 'wait' else 3
        return Ev('wait', i, cond=f.path(i.ops[0]), guard=f.path(i.ops[1]), timed=m.group(3) != 'wait', pred=len(i.ops) > n)
    m = re.match(r'^std::(_V2::)?condition_variable(_any)?::(notify_one|notify_all)$', c)
    if m:
        return Ev('notify', i, cond=f.path(i.ops[0]), all=m.group(3) == 'notify_all')
    if c == 'pfi::concurrent::condition::notify':
        return Ev('notify', i, cond=f.path(i.ops[0]), all=False)
    if c == 'pfi::concurrent::condition::notify_all':
        return Ev('notify', i, cond=f.path(i.ops[0]), all=True)
    return None


# effect of calling a (std / smart pointer) member function on a field
READERS = set('''size empty begin end rbegin rend cbegin cend front back at count find lower_bound upper_bound equal_range
operator[] operator* operator-> operator bool get use_count unique capacity max_size data c_str length
operator== operator!= operator< str'''.split())
GROW = set('''push_back push_front emplace_back emplace_front insert emplace push append operator+='''.split())
SHRINK = set('''pop_back pop_front erase clear pop'''.split())


def std_effect(i):
    """'read' | 'grow' | 'shrink' | 'write' for a call with a field's address as first operand"""
    dem = i.dem
    c = i.callee
    last = c.split('::')[-1]
    if 'operator bool' in dem:
        last = 'operator bool'
    if last.startswith('~'):
        return 'shrink'
    if last == 'operator[]' and ('map<' in dem.split('operator[]')[0]):
        return 'grow'
    if last in READERS:
        return 'read'
    if last in GROW:
        return 'grow'
    if last in SHRINK:
        return 'shrink'
    if last == 'reset':
        # reset() empties, reset(p) fills
        return 'shrink' if len(i.ops) == 1 else 'grow'
    if c.startswith('llvm.'):
        return 'read' if 'lifetime' in c else 'write'
    return 'write'


class Model(object):
    """synchronised classes of the program and their guarded members"""

    def __init__(self, prog):
        self.prog = prog
        self.ty = Typer(prog)
        self.classes = {}
        for n, t in prog.types.items():
            if t['file'].startswith('/usr') or not (n.startswith('pfi::')):
                continue
            mem = list(t['m'])
            mts = [m for m in mem if is_sync(m['t']) and MUTEX_T.search(strip_cv(m['t']))]
            if not mts:
                continue
            conds = [m for m in mem if is_sync(m['t']) and COND_T.search(strip_cv(m['t']))]
            data = [m for m in mem if not is_sync(m['t']) and not m['t'].startswith('const ')]
            self.classes[n] = dict(mutexes=mts, conds=conds, data=data)

    def entry(self, f):
        """is f callable from outside the library's own code?"""
        if f.d.get('artificial'):
            return False
        if f.acc != 'public' or f.d.get('link') == 'local':
            return bool(f.d.get("addr"))
        if (f.d.get('clsfile') or '').endswith('.cpp') and f.d.get('ncallers') and not f.d.get('virtual') \
                and not f.d.get('clsfile', '').startswith('/'):
            return False
        return True

    def locate(self, f, path):
        """(root, class, member) if path is inside a member of a synchronised class"""
        m = self.ty.member(f, path)
        if m and m[0] in self.classes:
            return (path[0], m[0], m[1])
        return None

    def accesses(self, f, i):
        """accesses of instruction i to data members of synchronised classes:
        list of (root, class, member, 'read'|'grow'|'shrink'|'write')"""
        out = []
        if i.op == 'load':
            loc = self.locate(f, f.path(i.ops[0]))
            if loc and self.isdata(loc):
                out.append(loc + ('read',))
        elif i.op == 'store':
            loc = self.locate(f, f.path(i.ops[1]))
            if loc and self.isdata(loc):
                out.append(loc + (self.store_effect(f, i),))
        elif i.iscall:
            if event(f, i) is not None:
                return out
            if i.callee.startswith('llvm.lifetime') or i.callee.startswith('llvm.dbg'):
                return out
            for k, o in enumerate(i.ops):
                if not isptr(o):
                    continue
                p = f.path(o)
                loc = self.locate(f, p)
                if loc and self.isdata(loc):
                    if p[1] == 0 and not self.names_member_type(i, loc[2], k):
                        continue        # the whole object is passed, not its first member
                    if k == 0 or (k == 1 and i.d.get('sret') == 0):
                        eff = std_effect(i)
                    else:
                        eff = 'read' if self.const_param(i, k) else 'write'
                    out.append(loc + (eff,))
        elif i.op in ('atomicrmw', 'cmpxchg'):
            loc = self.locate(f, f.path(i.ops[0]))
            if loc and self.isdata(loc):
                out.append(loc + ('write',))
        return out

    def names_member_type(self, i, mem, k):
        t = template_base(strip_cv(mem['t']))
        last = t.split('::')[-1]
        if i.callee.startswith('llvm.'):
            return True
        if k == 0:
            parts = i.callee.split('::')[:-1]
            if not parts:
                return False
            c = parts[-1]
            return c == last or c.lstrip('_') == last or (c in ('shared_ptr', '__shared_ptr') and last == 'shared_ptr') \
                or (c == '_Rb_tree' and last in ('set', 'map', 'multimap', 'multiset')) or c.startswith('_Deque') or c.startswith('_Vector')
        return last in i.dem.split('(', 1)[-1]

    def const_param(self, i, k):
        m = re.search(r'\((.*)\)[^()]*$', i.dem)
        return bool(m) and 'const' in m.group(1)

    def store_effect(self, f, i):
        """direction of an integer update: x = x + k / x - k"""
        v = f.strip_casts(i.ops[0])
        d = f.defs.get(v)
        tgt = f.path(i.ops[1])
        if d is not None and d.op in ('add', 'sub'):
            for a, b in ((0, 1), (1, 0)):
                s = f.defs.get(f.strip_casts(d.ops[a]))
                if s is not None and s.op == 'load' and f.path(s.ops[0]) == tgt:
                    c = f.const(d.ops[b])
                    if d.op == 'add':
                        if c is not None:
                            return 'grow' if c > 0 else 'shrink'
                        return 'grow'
                    if a == 0:
                        if c is not None:
                            return 'shrink' if c > 0 else 'grow'
                        return 'shrink'
        return 'write'

    def isdata(self, loc):
        m = loc[2]
        return not is_sync(m['t']) and not m['t'].startswith('const ')

    def mutex_of(self, f, lockpath):
        """(root, class, member) for a lock path"""
        m = self.ty.member(f, lockpath) if isinstance(lockpath, tuple) and lockpath[0] != 'rwguard' else None
        if m and is_sync(m[1]['t']):
            return (lockpath[0], m[0], m[1])
        return None


class LockState(object):
    """helpers over an immutable lock state: (held, guards)
    held: sorted tuple of (lockpath, count); guards: tuple of (guard, lockpath)"""


class LockExplorer(Explorer):
    """tracks the locks held; subclasses get hooks on top. Property state is a
    tuple (held, guards, extra)."""

    def __init__(self, model, f):
        Explorer.__init__(self, model.prog, f)
        self.model = model
        self.events = {}
        for i in f.insts():
            e = event(f, i)
            if e is not None:
                self.events[i.id] = e
        self.acc = {}
        for i in f.insts():
            a = model.accesses(f, i)
            if a:
                self.acc[i.id] = a
        self.released_guards = set()

    def init(self):
        return ((), (), self.init_extra())

    def init_extra(self):
        return ()

    # hooks
    def on_acquire(self, st, e, env):
        return st

    def on_release(self, st, lock, e, env):
        return st

    def on_wait(self, st, e, env):
        return st

    def on_notify(self, st, e, env):
        return st

    def on_access(self, st, i, accs, env):
        return st

    def on_inst(self, st, i, env):
        return st

    def call_value(self, i, st):
        # acquiring an initialised, untimed mutex succeeds (POSIX); timed and
        # rw locks stay unknown
        c = i.callee
        if c.startswith('pfi::lang::safe_bool::operator') or c in ('pfi::concurrent::scoped_lock::locked', 'pfi::concurrent::scoped_lock::bool_test'):
            if 'scoped_lock' in i.dem:
                g = self.f.path(i.ops[0])
                for gg, l in st[1]:
                    if gg == g and l[0] != 'rwguard':
                        return 1
            return None
        if c == 'pfi::concurrent::mutex_base::lock':
            return 1
        return None

    def throws(self, i):
        if i.d.get('nothrow'):
            return False
        e = self.events.get(i.id)
        if e is not None and e.kind != 'wait' and e.kind != 'acq':
            return False            # releases and notifications do not throw
        c = i.callee
        if c.split('::')[-1].startswith('~'):
            return False            # destructors are noexcept
        return True

    def held(self, st, lock):
        for l, n in st[0]:
            if l == lock:
                return n
        return 0

    @staticmethod
    def _inc(held, lock, d):
        m = dict(held)
        m[lock] = m.get(lock, 0) + d
        if m[lock] <= 0:
            del m[lock]
        return tuple(sorted(m.items(), key=str))

    def inst(self, st, i, env):
        e = self.events.get(i.id)
        if e is not None:
            if e.kind == 'acq':
                st = self.on_acquire(st, e, env)
                held, guards, x = st
                held = self._inc(held, e.lock, 1)
                if e.guard is not None:
                    guards = tuple(g for g in guards if g[0] != e.guard) + ((e.guard, e.lock),)
                return [(held, guards, x)]
            if e.kind in ('relg', 'unlockg'):
                held, guards, x = st
                for g, l in guards:
                    if g == e.guard:
                        st = self.on_release(st, l, e, env)
                        held, guards, x = st
                        held = self._inc(held, l, -1)
                        if e.kind == 'relg':
                            guards = tuple(y for y in guards if y[0] != e.guard)
                        else:
                            guards = tuple(y for y in guards if y[0] != e.guard) + ((e.guard, ('unlocked', l)),)
                        return [(held, guards, x)]
                return [st]
            if e.kind == 'lockg':
                held, guards, x = st
                for g, l in guards:
                    if g == e.guard and l[0] == 'unlocked':
                        held = self._inc(held, l[1], 1)
                        guards = tuple(y for y in guards if y[0] != e.guard) + ((e.guard, l[1]),)
                return [(held, guards, x)]
            if e.kind == 'rel':
                st = self.on_release(st, e.lock, e, env)
                held, guards, x = st
                return [(self._inc(held, e.lock, -1), guards, x)]
            if e.kind == 'wait':
                return [self.on_wait(st, self._waitlock(st, e), env)]
            if e.kind == 'notify':
                return [self.on_notify(st, e, env)]
        a = self.acc.get(i.id)
        if a:
            st = self.on_access(st, i, a, env)
        st = self.on_inst(st, i, env)
        return [st]

    def _waitlock(self, st, e):
        if e.lock is None and e.guard is not None:
            for g, l in st[1]:
                if g == e.guard:
                    e.lock = l
        return e

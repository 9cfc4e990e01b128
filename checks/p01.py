"""Lock-set analysis: every access to a mutex-guarded member, in every function
callable from outside, happens while that object's mutex is held."""
from pfa import *
from conc import *

RULE = '''For each class owning a mutex, a member is guarded when some function other than a constructor/destructor
mutates it while that mutex is held (in the synchronisation containers: when any such function mutates it at all).
Every path of every externally callable function reaches an access to a guarded member (directly, through a
container operation, or through a pointer/iterator obtained from it) only while the same object's mutex is held.'''
ASSUME = ['locking an initialised mutex succeeds', 'constructors and destructors run without concurrent access to the object under construction']


def own_lifecycle(model, f, root, cls):
    """f is a constructor/destructor of cls working on its own object, or
    constructs the object itself"""
    last = f.short.split('::')[-1]
    if f.cls and root in ('a0', 'a1') and (last.startswith('~') or last == template_base(f.cls).split('::')[-1].split('<')[0]):
        if strip_cv(f.cls) == cls or model.prog.derives(f.cls, cls):
            return True
    return False


def constructed_classes(model, f):
    """objects constructed or destroyed in f: their mutex's constructor/destructor runs here"""
    out = set()
    for i in f.calls():
        c = i.callee
        m = re.match(r'^(pfi::concurrent::(mutex|r_mutex|rw_mutex|mutex_base)|std::(recursive_|timed_)?mutex)::~?(mutex|r_mutex|rw_mutex|mutex_base|recursive_mutex)$', c)
        if m and i.ops:
            loc = model.ty.member(f, f.path(i.ops[0]))
            if loc:
                out.add((f.path(i.ops[0])[0], loc[0]))
    return out


class E(LockExplorer):
    def __init__(self, model, f, guarded, report, stats, prelocked=None):
        LockExplorer.__init__(self, model, f)
        self.guarded = guarded
        self.report = report
        self.stats = stats
        self.built = constructed_classes(model, f)
        self.builtcls = set(c for r, c in self.built)
        self.prelocked = prelocked

    def on_access(self, st, i, accs, env):
        for root, cls, mem, eff in accs:
            if self.guarded is not None and (cls, mem['n']) not in self.guarded:
                continue
            if own_lifecycle(self.model, self.f, root, cls):
                continue
            if cls in self.builtcls and (root, cls) in self.built:
                continue
            if cls in self.builtcls and self.f.short.split('::')[-1] == template_base(self.f.cls or '').split('::')[-1].split('<')[0]:
                continue
            ok = self.covered(st, root, cls)
            self.stats(self.f, i, root, cls, mem, eff, ok)
            if not ok and self.report:
                self.report(self.f, i, cls, mem, eff)
        return st

    def covered(self, st, root, cls):
        if self.prelocked:
            return True
        for lock, n in st[0]:
            mo = self.model.mutex_of(self.f, lock)
            if mo and mo[1] == cls:
                if mo[0] == root:
                    return True
                for r in (mo[0], root):
                    if isinstance(r, tuple) and r[0] == 'L' and self.f.root_is_local(r[1]):
                        return True
        return False


def add_derived(model, f, ex):
    """pointers handed out by a guarded member count as accesses to it"""
    der = {}
    for i in f.insts():
        for root, cls, mem, eff in ex.acc.get(i.id, []):
            if (cls, mem['n']) not in ex.guarded:
                continue
            if i.iscall and i.ty == 'ptr' and eff == 'read':
                der[i.id] = (root, cls, mem)
            if i.op == 'load' and i.ty == 'ptr':
                der[('L',) + f.path(i.ops[0])] = (root, cls, mem)
    if not der:
        return
    for i in f.insts():
        if i.op == 'store' and i.ops[0] in der and f.root_is_local(f.path(i.ops[1])[0]):
            der[f.path(i.ops[1])[0]] = der[i.ops[0]]
    for i in f.insts():
        if i.id in ex.acc or i.id in ex.events:
            continue
        ps = []
        if i.op == 'load':
            r = f.path(i.ops[0])[0]
            if not f.root_is_local(r):
                ps = [r]
        elif i.op == 'store':
            r = f.path(i.ops[1])[0]
            if not f.root_is_local(r):
                ps = [r]
        elif i.iscall and not i.callee.startswith('llvm.') and i.callee not in ('operatordelete', 'operatornew'):
            for o in i.ops:
                if isptr(o):
                    r = f.path(o)[0]
                    if f.root_is_local(r) and i.callee.split('::')[-1] not in ('operator*', 'operator->', 'operator++'):
                        continue
                    ps.append(r)
        for r in ps:
            if r in der:
                root, cls, mem = der[r]
                ex.acc.setdefault(i.id, []).append((root, cls, mem, 'read'))


def predicate_of_wait(prog, f):
    """f is a functor passed to a condition wait: runs with the lock held"""
    k = f.dem.rfind('::operator()(')
    if k < 0:
        return False
    cls = f.dem[:k]
    for g in prog.funcs:
        for i in g.calls():
            if 'condition_variable' in i.callee and i.callee.split('::')[-1].startswith('wait') and cls in i.dem:
                return True
    return False


def guarded_members(model, funcs):
    cand = {}

    def stats(f, i, root, cls, mem, eff, ok):
        if eff != 'read':
            c = cand.setdefault((cls, mem['n']), [0, 0])
            c[0] += 1
            c[1] += ok
    for f in funcs:
        E(model, f, None, None, stats).run()
    return set(k for k, (n, locked) in cand.items()
               if locked or (k[0].startswith('pfi::concurrent::')))


def check(ctx):
    model = ctx.model()
    prog = model.prog
    funcs = [f for f in prog.by_dem.values() if model.entry(f) and any(model.accesses(f, i) for i in f.insts())]
    guarded = guarded_members(model, funcs)
    ctx.counts['guarded_members'] = sorted('%s.%s' % g for g in guarded)
    ctx.counts['synchronised_classes'] = len(model.classes)
    seen = set()

    def stats(f, i, root, cls, mem, eff, ok):
        if (f.dem, i.id) not in seen:
            seen.add((f.dem, i.id))
            ctx.ob('%s of %s.%s under its mutex' % (eff, cls, mem['n']), '%s (%s)' % (i.where(), f.short))

    def report(f, i, cls, mem, eff):
        ctx.bad('unlocked-access', f, i.where(), '%s of %s.%s on a path where the object\'s mutex is not held' % (eff, cls, mem['n']))
    n = 0
    for f in funcs:
        ex = E(model, f, guarded, report, stats, prelocked=predicate_of_wait(prog, f))
        add_derived(model, f, ex)
        ex.run()
        if ex.truncated:
            raise AnchorLost('state space of %s truncated' % f.short)
        n += 1
    ctx.count('functions_analysed', n)
    ctx.need('guarded_member_count', len(guarded), 10)
    ctx.need('accesses', len(seen), 40)

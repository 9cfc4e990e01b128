"""Timed waits: bounded by the caller's limit across wake-ups, and the outcome
reported is the outcome that happened."""
from pfa import *
from conc import *
from p02 import waits
import xfer

RULE = '''At every timed condition wait in a library operation: (a) the time limit passed to the wait depends on the caller's limit
and on a clock reading taken after the previous wake-up (inside the loop), so wake-ups cannot extend the total, and, where it is a linear form of these, is the limit less the time passed since the start; (b) a path on
which the wait timed out (returned false), or the limit was found exhausted, and which leaves without retrying returns false
without changing the container; (c) every path returning true performed the transfer exactly once. try-operations return
without waiting, true exactly on the paths that transferred. (d) The deadline handed to the system by timed waits and timed locks is the time now plus
the limit, split into seconds and nanoseconds; a guard with limit 0 does not lock without limit.'''
ASSUME = ['the clock is monotone']


def is_clock(d):
    return d.iscall and (d.callee in ('pfi::system::time::get_clock_time', 'gettimeofday', 'clock_gettime', 'time') or 'chrono' in d.dem and 'now' in d.dem)


def lin(f, v, inloop=(), depth=0):
    """v as a linear form over 'lim' (the caller's limit), 'now' (a clock reading in the loop), 'then' (one before it),
    ('int', value) and 1; None if it is not one"""
    v = str(v)
    if depth > 40:
        return None
    if v.startswith('f:'):
        try:
            return {1: float(v[2:])}
        except ValueError:
            return None
    if v.startswith('a') and v[1:].isdigit():
        return {'lim': 1.0} if f.args[int(v[1:])]['t'] == 'double' else None
    d = f.defs.get(v)
    if d is None:
        return None
    if d.op in ('fadd', 'fsub'):
        x, y = lin(f, d.ops[0], inloop, depth + 1), lin(f, d.ops[1], inloop, depth + 1)
        if x is None or y is None:
            return None
        r = dict(x)
        for k, c in y.items():
            r[k] = r.get(k, 0) + (c if d.op == 'fadd' else -c)
        return {k: c for k, c in r.items() if c}
    if d.op == 'fneg':
        x = lin(f, d.ops[0], inloop, depth + 1)
        return None if x is None else {k: -c for k, c in x.items()}
    if d.op in ('fmul', 'fdiv'):
        x, y = lin(f, d.ops[0], inloop, depth + 1), lin(f, d.ops[1], inloop, depth + 1)
        if x is None or y is None:
            return None
        if set(y) <= {1}:
            c = y.get(1, 0)
            return {k: (a * c if d.op == 'fmul' else a / c) for k, a in x.items()} if c or d.op == 'fmul' else None
        if d.op == 'fmul' and set(x) <= {1}:
            return {k: a * x.get(1, 0) for k, a in y.items()}
        return None
    if d.op == 'sitofp':
        return {('int', leaves(f, d.ops[0])): 1.0}
    if d.iscall and d.callee.endswith('clock_time::operator double'):
        if f.depends(d.id, lambda x: is_clock(x) and x.blk in inloop, memory=True):
            return {'now': 1.0}
        if f.depends(d.id, is_clock, memory=True):
            return {'then': 1.0}
    return None


def leaves(f, v, depth=0):
    """the values v may have been chosen from: through phis, selections, structures and local variables"""
    v = str(v)
    if depth > 12:
        return frozenset([v])
    d = f.defs.get(v)
    if d is None:
        return frozenset([v])
    if d.op == 'select':
        return leaves(f, d.ops[1], depth + 1) | leaves(f, d.ops[2], depth + 1)
    if d.op == 'phi':
        r = frozenset()
        for o in d.ops:
            if o != v:
                r |= leaves(f, o, depth + 1)
        return r
    if d.op == 'extractvalue':
        ix = d.d.get('ix')
        w = f.defs.get(d.ops[0])
        while w is not None and w.op == 'insertvalue':
            if w.d.get('ix') == ix:
                return leaves(f, w.ops[1], depth + 1)
            w = f.defs.get(w.ops[0])
        return frozenset([v])
    if d.op == 'load':
        ps = leaves(f, d.ops[0], depth + 1)
        r = frozenset()
        for q in ps:
            root, off = f.path(q)
            st = stores(f, root, off)
            if not f.root_is_local(root) or not st:
                return frozenset([v])
            for x in st:
                r |= leaves(f, x, depth + 1)
        return r
    if d.iscall and d.callee.split('<')[0] in ('std::max', 'std::min') and d.ty == 'ptr':
        return leaves(f, d.ops[0], depth + 1) | leaves(f, d.ops[1], depth + 1)
    return frozenset([v])


def stores(f, root, off):
    return [x.ops[0] for x in f.insts() if x.op == 'store' and f.path(x.ops[1]) == (root, off)]


def close(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= 1e-9 * abs(b[k]) for k in a)


DEADLINE = {'pthread_cond_timedwait': 2, 'pthread_rwlock_timedrdlock': 1, 'pthread_rwlock_timedwrlock': 1, 'pthread_mutex_timedlock': 1}


def check_deadlines(ctx, prog):
    """the point in time handed to the system is now plus the limit, in seconds and nanoseconds"""
    n = 0
    for f in prog.by_dem.values():
        if not any(a['t'] == 'double' for a in f.args):
            continue
        for i in f.calls():
            k = DEADLINE.get(i.callee)
            if k is None or len(i.ops) <= k:
                continue
            root, off = f.path(i.ops[k])
            n += 1
            where = '%s (%s)' % (i.where(), f.short)
            ctx.ob('the deadline is the time now plus the limit', where)
            sec, ns = stores(f, root, off), stores(f, root, off + 8)
            want = {'then': 1.0, 'lim': 1.0}
            L = frozenset().union(*[leaves(f, x) for x in sec]) if sec else frozenset()
            bad = None
            und = not sec or not ns or not f.root_is_local(root)
            for x in L:
                if f.const(x) is not None:
                    continue
                d = f.defs.get(x)
                form = lin(f, d.ops[0]) if d is not None and d.op in ('fptosi', 'fptoui') else None
                if form is None:
                    und = True
                elif not close(form, want):
                    bad = 'the seconds of the deadline are %s' % show(form)
            for x in frozenset().union(*[leaves(f, x) for x in ns]) if ns else ():
                c = f.const(x)
                if c is not None:
                    if not 0 <= c <= 999999999:
                        bad = 'the nanoseconds of the deadline can be %d' % c
                    continue
                d = f.defs.get(x)
                form = lin(f, d.ops[0]) if d is not None and d.op in ('fptosi', 'fptoui') else None
                if form is None:
                    und = True
                    continue
                form = dict(form)
                ints = [q for q in form if isinstance(q, tuple)]
                cs = sum(form.pop(q) for q in ints)
                if any(q[1] - {'c:0'} != L - {'c:0'} for q in ints):
                    und = True
                elif not close(form, {k2: 1e9 * c2 for k2, c2 in want.items()}) or abs(cs + 1e9) > 1:
                    bad = 'the nanoseconds of the deadline are %s%+g*(its seconds)' % (show(form), cs)
            if und:
                ctx.count('undecided')
                ctx.samples.append('undecided deadline at %s' % where)
            elif bad:
                ctx.bad('deadline', f, i.where(), bad + ' instead of the time now plus the limit')
    return n


def show(form):
    return ' '.join('%+g*%s' % (c, {'lim': 'limit', 'then': 'time', 'now': 'time', 1: '1'}.get(k, k if isinstance(k, str) else 'seconds')) for k, c in sorted(form.items(), key=str)) or '0'


UNTIMED = ('pfi::concurrent::rw_mutex::read_lock', 'pfi::concurrent::rw_mutex::write_lock')


def check_guards(ctx, prog):
    """a guard given a limit >= 0 does not lock without limit"""
    n = 0
    for f in prog.by_dem.values():
        dbl = ['a%d' % k for k, a in enumerate(f.args) if a['t'] == 'double']
        if not dbl:
            continue
        for i in f.calls():
            if not (i.callee in UNTIMED and len(i.ops) == 1 or i.callee in ('pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_cond_wait')):
                continue
            n += 1
            ctx.ob('locks without a limit only if none was given', '%s (%s)' % (i.where(), f.short))
            if reaches(f, i, dbl[0], 0.0) is True:
                ctx.bad('limit-ignored', f, i.where(), 'with the limit 0 the lock is waited for without a limit')
    return n


def reaches(f, call, lim, value):
    """can the call be reached with the limit having this value?"""
    work, seen = [0], set()
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == call.blk:
            return True
        t = f.blocks[b][-1]
        if t.op == 'br' and t.ops:
            d = f.defs.get(t.ops[0])
            if d is not None and d.op == 'fcmp':
                x, y = lin(f, d.ops[0]), lin(f, d.ops[1])
                if x is not None and y is not None and set(x) | set(y) <= {'lim', 1}:
                    u = x.get('lim', 0) * value + x.get(1, 0)
                    w = y.get('lim', 0) * value + y.get(1, 0)
                    p = d.d['p'][-2:]
                    r = {'lt': u < w, 'le': u <= w, 'gt': u > w, 'ge': u >= w, 'eq': u == w, 'ne': u != w}.get(p)
                    if r is not None:
                        work.append(t.d['succ'][0 if r else 1])
                        continue
        work += list(f.succs(b))
    return False


def check(ctx):
    model = ctx.model()
    ctx.need('deadlines', check_deadlines(ctx, model.prog), 1)
    ctx.need('guards', check_guards(ctx, model.prog), 1)
    n = 0
    for f, ws in waits(model):
        for i, e in ws:
            if not e.timed or e.pred:
                continue
            n += 1
            where = '%s (%s)' % (i.where(), f.short)
            ctx.ob('the limit passed to the timed wait is re-computed from the clock in the loop', where)
            lim = i.ops[2] if len(i.ops) > 2 else None
            body = [b for h, b in f.loops().items() if i.blk in b]
            inloop = set().union(*body) if body else set()
            if lim is None or not f.depends(lim, lambda d: is_clock(d) and d.blk in inloop, memory=True):
                ctx.bad('limit-not-recomputed', f, i.where(), 'after a wake-up the full limit is waited again: the time limit does not depend on a clock reading in the loop')
            form = lin(f, lim, inloop) if lim is not None else None
            if form is not None and not any(isinstance(q, tuple) for q in form):
                c = form.pop(1, 0)
                if 'now' in form and not close(form, {'lim': 1.0, 'then': 1.0, 'now': -1.0}) or c > 0:
                    ctx.bad('limit-form', f, i.where(), 'the rest of the limit passed to the wait is %s instead of the limit less the time that has passed' % show(form))
            dbl = [k for k, a in enumerate(f.args) if a['t'] == 'double']
            seen = set()
            f.depends(lim or 'null', lambda d: False, seen=seen, memory=True)
            if dbl and not any('a%d' % k in seen for k in dbl):
                ctx.bad('limit-ignored', f, i.where(), 'the time limit of the wait does not depend on the caller\'s limit')
    # outcome reporting
    m = 0
    for cls, base, f in xfer.units(model):
        op = '::'.join(f.short.split('::')[-2:])
        istry = '::try_' in f.short
        timed = any(a['t'] == 'double' for a in f.args)
        if f.d['ret'] != 'i1' or not (istry or timed):
            continue
        m += 1
        x = xfer.X(model, f, cls, None, lambda *a: None).run()
        got = {0: 0, 1: 0}
        ctx.ob('true is returned exactly on the transferring paths', '%s:%d (%s)' % (f.file, f.line, f.short))
        for i, muts, v in x.exits:
            if i.op != 'ret':
                continue
            k = len([1 for q in muts if q[0] != 'rel'])
            if v is None:
                ctx.bad('outcome', f, i.where(), 'the value returned is not determined by whether the transfer happened')
            elif v and k != 1:
                ctx.bad('outcome', f, i.where(), 'returns true on a path with %d transfers' % k)
            elif not v and k:
                ctx.bad('outcome', f, i.where(), 'returns false although the transfer was made')
            if v is not None:
                got[v & 1] += 1
        if not got[0] or not got[1]:
            ctx.bad('outcome', f, '%s:%d' % (f.file, f.line), 'never returns %s' % ('true' if not got[1] else 'false'))
        if istry and any((event(f, i) or Ev('', i)).kind == 'wait' for i in f.calls()):
            ctx.bad('try-blocks', f, '%s:%d' % (f.file, f.line), 'a try operation waits')
        if timed and any((event(f, i) or Ev('', i)).kind == 'wait' and not event(f, i).timed for i in f.calls()):
            ctx.bad('untimed-wait', f, '%s:%d' % (f.file, f.line), 'a timed operation waits without a limit')
        if timed:
            # a wait that timed out must lead out with failure (possibly after a last re-test)
            for i in f.calls():
                e = event(f, i)
                if e is not None and e.kind == 'wait' and e.timed:
                    used = any(x2 is not i for x2 in f.uses.get(i.id, []))
                    # either the result is tested or the limit is tested against the clock in the loop
                    tested = False
                    for h, body in f.loops().items():
                        if i.blk in body:
                            for b in body:
                                t = f.blocks[b][-1]
                                if t.op == 'br' and t.ops and any(s not in body for s in t.d['succ']):
                                    if f.depends(t.ops[0], lambda d: d is i or is_clock(d), memory=True):
                                        tested = True
                    ctx.ob('an expired limit leaves the waiting loop', '%s (%s)' % (i.where(), f.short))
                    if not tested:
                        ctx.bad('limit-never-expires', f, i.where(), 'no exit of the waiting loop depends on the wait\'s outcome or the clock')
    ctx.need('timed_wait_sites', n, 2)
    ctx.need('reporting_operations', m, 4)

"""Clock and calendar times: normalised sums, exact differences, and field-by-field conversion."""
from formula import *
from p30 import compare

RULE = '''clock_time: value numbering between loop heads shows that sec*10^6+usec of the result is the sum (difference) of those of the operands, also for a+=a, and interval analysis over
the loop conditions that 0 <= usec < 10^6 in the result whatever the operands; operator< is evaluated for all relations of (sec, usec); the conversion to double is sec + usec*10^-6.
calendar_time: the struct tm given to mktime holds each field with its offset (mon-1, year-1900), each field is read back from localtime_r with the opposite offset, microseconds are kept,
and the constructor from fields goes through both.'''
ASSUME = ['no overflow of sec or usec', 'mktime and localtime_r as in POSIX']
TM = {'sec': 0, 'min': 4, 'hour': 8, 'mday': 12, 'mon': 16, 'year': 20, 'wday': 24, 'yday': 28, 'isdst': 32}
OFF = {'mon': 1, 'year': 1900}
INF = float('inf')


class Time(Formula):
    divmod = True

    def call(self, p, i, n, a):
        if n in ('mktime', 'timelocal'):
            r, o = self.ptr(a[0])
            p.ev.append(('mktime', r, o, len(p.log), i))
            k = sum(1 for e in p.ev if e[0] == 'mktime')
            p.env[i.id] = var('mktime', k)
            p.log.append(('any', r, 'mktime%d' % k))
            return True
        if n == 'localtime_r':
            (s, so), (r, o) = self.ptr(a[0]), self.ptr(a[1])
            k = sum(1 for e in p.ev if e[0] == 'local')
            p.ev.append(('local', self.load(p, s, so, 8, 'i64'), r, o, i))
            p.log.append(('any', r, 'tm%d' % k))
            p.env[i.id] = a[1]
            return True
        if n == 'gettimeofday':
            r, o = self.ptr(a[0])
            p.log.append(('any', r, 'tv'))
            p.env[i.id] = var('rc')
            p.ev.append(('tod', r, o, i))
            return True
        if n == 'clock_gettime':
            r, o = self.ptr(a[1])
            p.log.append(('any', r, 'ts'))
            p.env[i.id] = var('rc')
            p.ev.append(('ts', r, o, i))
            return True
        return False


def where(f, hdr='time_util'):
    ls = [i for i in f.insts() if hdr in i.where()]
    return ls[-1].where() if ls else f.file


def refine(x, conds, lo=-INF, hi=INF):
    for c, v in conds:
        if c[0] != 'cmp' or not isinstance(c[2], R) or not isinstance(c[3], R):
            continue
        for s in (1, -1):
            z = (c[2] - c[3]) * num(s)
            k = (z - x).const()
            if k is None:
                continue
            p = c[1] if v else NEG[c[1]]
            if s < 0:
                p = SWAP[p]
            k = int(k)
            # x + k p 0
            if p == 'lt':
                hi = min(hi, -k - 1)
            elif p == 'le':
                hi = min(hi, -k)
            elif p == 'gt':
                lo = max(lo, -k + 1)
            elif p == 'ge':
                lo = max(lo, -k)
            elif p == 'eq':
                lo, hi = max(lo, -k), min(hi, -k)
            break
    return lo, hi


def arith_(ctx, prog, f, op, S, U):
    """sum and difference"""
    heads = sorted(f.loops())
    if op in ('add', 'sub'):
        a, b = 'a1', 'a2'
    else:
        a, b = 'a0', 'a1'
    if op.endswith('self'):
        b = 'a0'
    ssz, usz = 8, 4
    M = num(1000000)
    tin = [var('ld', r, S) * M + var('ld', r, U) for r in (a, b)]
    want = tin[0] + tin[1] if op.startswith('add') else tin[0] - tin[1]
    fo = Time(prog, f, cuts=heads)
    fo.BUDGET = 3000
    roots = set()
    for i in f.insts():
        if i.op == 'store' or (i.callee or '').startswith('llvm.mem'):
            r = i.ops[1] if i.op == 'store' else i.ops[0]
            while f.defs.get(r) is not None and f.defs[r].op == 'getelementptr':
                r = f.defs[r].ops[0]
            roots.add(r)

    def cands(h):
        st = Path()
        ph = [i for i in f.blocks[h] if i.op == 'phi']
        for i in ph:
            st.env[i.id] = var('phi', h, i.id)
        for r in sorted(roots):
            st.log.append(('any', r, h))
        # definitions that dominate the header are not re-evaluated: allocas and pointers are, on demand
        xs = [('phi', i.id) for i in ph if re.match(r'^i(32|64)$', i.ty or '')] + [('cell', r, o, z) for r in sorted(roots) for o, z in ((S, ssz), (U, usz))]
        return st, xs

    def value(p, x):
        if x[0] == 'phi':
            return p.phis.get(x[1]) if getattr(p, 'phis', None) is not None else p.env.get(x[1])
        return fo.load(p, x[1], x[2], x[3], 'i32')

    def fresh_(h, x):
        return var('phi', h, x[1]) if x[0] == 'phi' else var('mem', h, x[1], x[2])
    seg = [('entry', fo.run())]
    for h in heads:
        st, xs = cands(h)
        # values computed before the loop and used in it
        pre = {}
        for b_, blk in enumerate(f.blocks):
            for i in blk:
                if i.op == 'alloca':
                    st.env[i.id] = ('P', i.id, 0)
                elif i.op == 'getelementptr' and not i.d.get('var'):
                    try:
                        r, o = fo.ptr(fo.val(st, i.ops[0]))
                        st.env[i.id] = ('P', r, o + i.d.get('off', 0))
                    except Undecided:
                        pass
        seg.append((h, fo.run(h, st)))
    # candidate pairs per header, matched from the entry on
    pair = {}
    allc = dict((h, cands(h)[1]) for h in heads)

    def tot(p, pr):
        v = [value(p, x) for x in pr]
        if not all(isinstance(x, R) for x in v):
            return None
        return v[0] * M + v[1]
    todo = [(None, p) for p in seg[0][1]]
    segs = dict(seg[1:])
    done = set()
    rounds = 0
    while todo:
        frm, p = todo.pop()
        rounds += 1
        if rounds > 200:
            raise Undecided('too many segments')
        exp = want if frm is None else fresh_(frm, pair[frm][0]) * M + fresh_(frm, pair[frm][1])
        if p.end == 'ret':
            ctx.ob('the total is kept up to the return', f.short)
            t = tot(p, [('cell', 'a0', S, ssz), ('cell', 'a0', U, usz)])
            if t is None:
                raise Undecided('result')
            if not t.same(exp):
                ctx.bad('total', f, where(f), '%s: the result is off by %s microseconds' % (op, t - exp))
                return
            continue
        if not isinstance(p.end, tuple):
            continue
        h = p.end[1]
        if h in pair:
            ctx.ob('a round keeps the total', f.short)
            t = tot(p, pair[h])
            if t is None:
                raise Undecided('loop state')
            if not t.same(exp):
                ctx.bad('total', f, where_cut(f, p), '%s: a round of normalisation changes the time by %s microseconds' % (op, t - exp))
                return
            continue
        ok = []
        for x in allc[h]:
            for y in allc[h]:
                if x == y:
                    continue
                try:
                    t = tot(p, (x, y))
                except Undecided:
                    t = None
                if t is not None and t.same(exp):
                    ok.append((x, y))
        cells_ = (('cell', 'a0', S, ssz), ('cell', 'a0', U, usz))
        if not ok:
            if not any(x[0] == 'phi' for x in allc[h]) and op not in ('add', 'sub'):
                ctx.bad('total', f, where(f), '%s: the total before normalisation is %s' % (op, tot(p, cells_)))
                return
            raise Undecided('no pair of variables carries the time')
        # prefer a pair that stays conserved
        best = None
        for pr in ok:
            good = True
            for q in segs[h]:
                if q.end == ('cut', h):
                    try:
                        t = tot(q, pr)
                    except Undecided:
                        t = None
                    if t is None or not t.same(fresh_(h, pr[0]) * M + fresh_(h, pr[1])):
                        good = False
            if good:
                best = pr
        pair[h] = best or ok[0]
        for q in segs[h]:
            todo.append((h, q))
    # range of the microseconds
    iv = dict((h, None) for h in heads)

    def interval(p, frm, x):
        if not isinstance(x, R):
            return -INF, INF
        lo, hi = -INF, INF
        k = x.const()
        if k is not None:
            return int(k), int(k)
        if frm is not None and iv[frm] is not None:
            y = fresh_(frm, pair[frm][1])
            d = (x - y).const()
            if d is not None:
                l, u = refine(y, p.conds, *iv[frm])
                lo, hi = l + int(d), u + int(d)
        for at, df in fo.defs.items():
            if df[0] == 'sdiv' and df[2].const() is not None and (x - (df[1] - df[2] * R(patom(at)))).const() is not None:
                d = int((x - (df[1] - df[2] * R(patom(at)))).const())
                m = abs(int(df[2].const())) - 1
                r = df[1] - df[2] * R(patom(at))
                l, u = refine(r, p.conds, -m, m)
                lo, hi = max(lo, l + d), min(hi, u + d)
        return refine(x, p.conds, lo, hi)
    for rnd in range(12):
        ch = False
        for frm, ps in seg:
            fr = None if frm == 'entry' else frm
            if fr is not None and iv[fr] is None:
                continue
            for p in ps:
                if isinstance(p.end, tuple) and p.end[1] in pair:
                    h = p.end[1]
                    if fr is not None:
                        y = fresh_(fr, pair[fr][1])
                        l, u = refine(y, p.conds, *iv[fr])
                        if l > u:
                            continue
                    l, u = interval(p, fr, value(p, pair[h][1]))
                    if l > u:
                        continue
                    o = iv[h]
                    n = (l, u) if o is None else (min(o[0], l), max(o[1], u))
                    if o is not None and n != o and rnd > 4:
                        n = (-INF if n[0] < o[0] else n[0], INF if n[1] > o[1] else n[1])
                    if n != o:
                        iv[h] = n
                        ch = True
        if not ch:
            break
    for frm, ps in seg:
        fr = None if frm == 'entry' else frm
        for p in ps:
            if p.end != 'ret':
                continue
            if fr is not None:
                if iv[fr] is None:
                    continue
                l, u = refine(fresh_(fr, pair[fr][1]), p.conds, *iv[fr])
                if l > u:
                    continue
            l, u = interval(p, fr, fo.load(p, 'a0', U, usz, 'i32'))
            if l > u:
                continue
            ctx.ob('microseconds of the result within [%s, %s]' % (l, u), f.short)
            if l < 0 or u > 999999:
                if not heads and any(d[0] == 'sdiv' for d in fo.defs.values()):
                    raise Undecided('range')
                ctx.bad('range', f, where(f), '%s: the microseconds of the result may be %s' % (op, 'negative' if l < 0 else '%s' % (u if u != INF else 'one million or more')))
                return


def where_cut(f, p):
    ls = [e[1] for e in p.ev if e[0] == 'store']
    return ls[-1].where() if ls else where(f)


def check(ctx):
    prog = ctx.prog('math')
    ctx.counts['undecided'] = 0
    n = 0
    off = {}
    for f in prog.funcs:
        m = re.search(r'driver_math::(clock_time|calendar_time)_at_(\w+)\(', f.dem or '')
        if m:
            fo = Formula(prog, f)
            p = fo.run()[0]
            off[m.group(1)[:2], m.group(2)] = [e[2] for e in p.log if e[0] == 'st'][0]
    S, U = off['cl', 'sec'], off['cl', 'usec']
    cal = dict((k[1], v) for k, v in off.items() if k[0] == 'ca')
    if len(off) != 12:
        raise Exception('fields not found')

    def body(f, fn):
        try:
            fn()
        except Undecided as e:
            ctx.counts['undecided'] += 1
            ctx.samples.append('undecided %s: %s' % (f.short, e))
            ctx.ob('attempted', f.short)
    for f in prog.funcs:
        d = f.dem or ''
        m = re.search(r'driver_math::t_(\w+)\(', d)
        if m:
            op = m.group(1)
            n += 1
            if re.match(r'(add|sub)(eq|self)?$', op):
                body(f, lambda: arith_(ctx, prog, f, op, S, U))
            elif op == 'lt':
                body(f, lambda: ctx.ob('operator< for %d relations of sec and usec' % compare(ctx, f, Time(prog, f).run(), 2, [S, U], True, 'operator<', 'time_util'), f.short))
            elif op == 'sec':
                body(f, lambda: seconds(ctx, prog, f, S, U))
            elif op == 'make':
                body(f, lambda: fields(ctx, prog, f, [(S, 8, var('arg', 'a1'), 'sec'), (U, 4, var('arg', 'a2'), 'usec')]))
            elif op == 'now':
                body(f, lambda: now(ctx, prog, f, S, U))
        elif re.search(r'^pfi::system::time::clock_time::clock_time\(pfi::system::time::calendar_time const&\)', d):
            n += 1
            body(f, lambda: to_clock(ctx, prog, f, S, U, cal))
        elif re.search(r'^pfi::system::time::calendar_time::calendar_time\(', d):
            n += 1
            body(f, lambda: to_cal(ctx, prog, f, S, U, cal))
    ctx.need('operations', n, 14)


def seconds(ctx, prog, f, S, U):
    ps = Time(prog, f).run()
    ctx.ob('conversion to seconds', f.short)
    if len(ps) != 1 or not isinstance(ps[0].ret, R):
        raise Undecided('conversion')
    w = var('ld', 'a0', S) + var('ld', 'a0', U) * num(Fraction(1, 1000000))
    if not ps[0].ret.close(w):
        ctx.bad('seconds', f, where(f), 'the time in seconds is %s' % ps[0].ret)


def fields(ctx, prog, f, want):
    fo = Time(prog, f)
    for p in fo.run():
        for o, z, w, nm in want:
            ctx.ob('field %s' % nm, f.short)
            g = fo.load(p, 'a0', o, z, 'i32')
            if not isinstance(g, R):
                raise Undecided('field')
            if not g.same(w):
                ctx.bad('field', f, where(f), 'field %s is set to %s' % (nm, g))
                return


def now(ctx, prog, f, S, U):
    fo = Time(prog, f)
    seen = False
    for p in fo.run():
        ev = [e for e in p.ev if e[0] in ('tod', 'ts')]
        if len(ev) != 1:
            raise Undecided('clock')
        g, u = fo.load(p, 'a0', S, 8, 'i64'), fo.load(p, 'a0', U, 4, 'i32')
        fail = [v for c, v in p.conds if c[0] == 'cmp' and isinstance(c[2], R) and c[2].atom() == ('rc',)]
        if g.const() == 0 and u.const() == 0 and p.conds:
            continue
        seen = True
        sec = var('mem', 'tv' if ev[0][0] == 'tod' else 'ts', ev[0][1], ev[0][2])
        usec = var('mem', 'tv', ev[0][1], ev[0][2] + 8)
        ctx.ob('the current time is the one the system reports', f.short)
        if u.atom() and u.atom()[0] == 'trunc':
            u = fo.defs[u.atom()][1]
        if not g.same(sec) or (ev[0][0] == 'tod' and not u.same(usec)):
            if ev[0][0] == 'ts':
                raise Undecided('clock_gettime')
            ctx.bad('now', f, where(f), 'the current time is taken as %s, %s' % (g, u))
            return
    if not seen:
        raise Undecided('no path')


def bit(fo, x):
    """strip conversions between bool and int"""
    for _ in range(6):
        if isinstance(x, tuple) and x[0] == 'cmp' and x[1] == 'ne' and isinstance(x[3], R) and x[3].const() == 0:
            x = x[2]
            continue
        a = x.atom() if isinstance(x, R) else None
        if a and a[0] == 'trunc':
            x = fo.defs[a][1]
            continue
        break
    return x


def tmcheck(ctx, f, fo, p, ev, src, what):
    """the struct tm passed to mktime"""
    _, r, o, upto, i = ev
    for nm in ('sec', 'min', 'hour', 'mday', 'mon', 'year', 'isdst'):
        g = fo.load(p, r, o + TM[nm], 4, 'i32', upto)
        ctx.ob('%s: %s given to mktime' % (what, nm), f.short)
        w = src.get(nm)
        if w is None:
            continue
        g = bit(fo, g) if nm == 'isdst' else g
        if not isinstance(g, R):
            raise Undecided('tm field')
        if nm == 'isdst':
            if g.same(w) or g.const() in (0, -1) and w.const() is not None:
                continue
            if g.const() is None and w.const() is not None and g.atom() and g.atom()[0] != 'undef':
                raise Undecided('isdst')
            if g.const() is None and not g.same(w) and not (g.atom() and g.atom()[0] in ('ld', 'undef', 'mem', 'arg')):
                raise Undecided('isdst')
        else:
            w = w - num(OFF.get(nm, 0))
        if not g.same(w):
            ctx.bad('calendar', f, i.where(), '%s: tm_%s given to mktime is %s' % (what, nm, g))
            return False
    return True


def to_clock(ctx, prog, f, S, U, cal):
    fo = Time(prog, f)
    for p in fo.run():
        ev = [e for e in p.ev if e[0] == 'mktime']
        if len(ev) != 1:
            raise Undecided('mktime')
        src = dict((k, var('ld', 'a1', o)) for k, o in cal.items())
        if not tmcheck(ctx, f, fo, p, ev[0], src, 'clock_time(calendar_time)'):
            return
        g, u = fo.load(p, 'a0', S, 8, 'i64'), fo.load(p, 'a0', U, 4, 'i32')
        ctx.ob('the clock time is what mktime returns, with the microseconds', f.short)
        if not (isinstance(g, R) and isinstance(u, R)):
            raise Undecided('result')
        if not g.same(var('mktime', 1)):
            ctx.bad('calendar', f, where(f), 'clock_time(calendar_time): the seconds are %s' % g)
            return
        if not u.same(src['usec']):
            ctx.bad('calendar', f, where(f), 'clock_time(calendar_time): the microseconds are %s' % u)
            return


def to_cal(ctx, prog, f, S, U, cal):
    args = f.d['args']
    fo = Time(prog, f)
    order = ['year', 'mon', 'mday', 'hour', 'min', 'sec', 'usec']
    nargs = len(args) - 1
    if nargs not in (0, 1, 7):
        raise Undecided('constructor')
    for p in fo.run():
        if nargs == 0:
            for nm, o in sorted(cal.items()):
                g = fo.load(p, 'a0', o, 1 if nm == 'isdst' else 4, 'i32')
                ctx.ob('field %s of an empty calendar_time' % nm, f.short)
                if not isinstance(g, R) or g.const() != 0:
                    if isinstance(g, R) and g.atom() and g.atom()[0] in ('ld', 'undef'):
                        ctx.bad('calendar', f, where(f), 'calendar_time(): field %s is not set' % nm)
                        return
            continue
        mk = [e for e in p.ev if e[0] == 'mktime']
        lc = [e for e in p.ev if e[0] == 'local']
        if len(lc) != 1 or len(mk) != (1 if nargs == 7 else 0):
            raise Undecided('conversion')
        what = 'calendar_time(%s)' % ('clock_time' if nargs == 1 else 'fields')
        if nargs == 7:
            src = dict((nm, var('arg', 'a%d' % (k + 1))) for k, nm in enumerate(order))
            src['isdst'] = num(0)
            if not tmcheck(ctx, f, fo, p, mk[0], src, what):
                return
            sec, usec = var('mktime', 1), src['usec']
        else:
            sec, usec = var('ld', 'a1', S), var('ld', 'a1', U)
        if not isinstance(lc[0][1], R):
            raise Undecided('time')
        ctx.ob('%s: converted from its own time' % what, f.short)
        if not lc[0][1].same(sec):
            ctx.bad('calendar', f, lc[0][4].where(), '%s: converts %s' % (what, lc[0][1]))
            return
        for nm, o in sorted(cal.items()):
            g = fo.load(p, 'a0', o, 1 if nm == 'isdst' else 4, 'i32')
            ctx.ob('%s: field %s' % (what, nm), f.short)
            if nm == 'usec':
                w = usec
            else:
                w = var('mem', 'tm0', lc[0][2], lc[0][3] + TM[nm]) + num(OFF.get(nm, 0))
            if nm == 'isdst':
                g = bit(fo, g)
                if isinstance(g, tuple):
                    # tm_isdst > 0 is as good as != 0
                    if g[0] == 'cmp' and g[1] == 'gt' and g[3].const() == 0:
                        g = g[2]
            if not isinstance(g, R):
                raise Undecided('field %s' % nm)
            if not g.same(w):
                ctx.bad('calendar', f, where(f), '%s: field %s is %s' % (what, nm, g))
                return

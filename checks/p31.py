"""Random numbers: MT19937 exactly, and every derived draw in its range by its formula."""
import math
from formula import *
from gf2 import Words, E as ZERO, O as ONEBIT

RULE = '''Generator: the constructor and next() of mersenne_twister are evaluated in the domain of GF(2)-linear words (affine words modulo 2^32 for the seeding), with the seed, and then all
624 state words, arbitrary. Every bit of the seeded state, of 624 successive outputs and of the state behind them must be the linear form of the published MT19937 recurrence and tempering; the
counter must then be back where it was, so the argument repeats for ever. Derived draws: each is reduced by value numbering to a formula over the outputs consumed, which must be the documented one (53-bit
doubles below 1, floor(a*u), a+floor((b-a)*u), polar Gaussians with a positive argument of the logarithm, the second value kept for the next call). Sampling: per round of the loops,
index, range of the draw, and the exchange of two entries.'''
ASSUME = ['doubles: the 53-bit sums are exact; other rounding is not judged', 'std::log, sqrt, sin, cos as in libm', 'operator[] and count of std::map as specified']
N, M = 624, 397


def word(*a):
    return tuple(frozenset([a + (k,)]) for k in range(32))


def ref_twist(mt):
    """MT19937 recurrence on words of linear bits"""
    mt = list(mt)
    A = 0x9908b0df
    for k in range(N):
        y = mt[(k + 1) % N][:31] + (mt[k][31],)
        z = mt[(k + M) % N]
        mt[k] = tuple(z[j] ^ (y[j + 1] if j < 31 else ZERO) ^ (y[0] if A >> j & 1 else ZERO) for j in range(32))
    return mt


def ref_temper(y):
    def xr(y, s):
        return tuple(y[j] ^ (y[j + s] if j + s < 32 else ZERO) for j in range(32))

    def xl(y, s, m):
        return tuple(y[j] ^ (y[j - s] if j >= s and m >> j & 1 else ZERO) for j in range(32))
    return xr(xl(xl(xr(y, 11), 7, 0x9d2c5680), 15, 0xefc60000), 18)


def show(b, mt=False):
    return ' ^ '.join('1' if a == 1 else '%s' % (a,) for a in sorted(b, key=repr)[:4]) or '0'


def same(W, x, y):
    a, b = W.bits(x, 32), W.bits(y, 32)
    return next((k for k in range(32) if a[k] != b[k]), None)


def opaque(W, x):
    return any(isinstance(a, tuple) and a[0] == 'n' for b in W.bits(x, 32) for a in b)


def generator(ctx, prog):
    ctor = next((f for f in prog.funcs if f.short.endswith('mersenne_twister::mersenne_twister') and [a['t'] for a in f.args] == ['ptr', 'i32']), None)
    nxt = next((f for f in prog.funcs if f.short.endswith('mersenne_twister::next')), None)
    if ctor is None or nxt is None:
        raise Undecided('generator not found')
    W = Words(prog)
    seed = word('seed')
    W.call(ctor, [('P', 'this', 0), seed])
    cells = sorted(k for k in W.mem if k[0] == 'this')
    words = [k for k in cells if k[2] == 4 and not isinstance(W.mem[k], int)]
    rest = [k for k in cells if k not in words]
    if not words:
        raise Undecided('no state words')
    start = words[0][1]
    if [k[1] for k in words] != list(range(start, start + 4 * len(words), 4)) or any(not isinstance(W.mem[k], int) for k in rest):
        raise Undecided('layout of the state')
    where = ctor.file
    init = next((f for f in prog.funcs if f.short.endswith('mersenne_twister::init')), ctor)
    if len(words) != N:
        ctx.bad('seeding', init, init.file, 'the seed fills %d words of state instead of %d' % (len(words), N))
        return
    prev = seed
    for k, c in enumerate(words):
        if k:
            x = W.xor(prev, W.binop('lshr', prev, 30, 32), 32)
            exp = W.binop('add', W.binop('mul', x, 1812433253, 32), k, 32)
        else:
            exp = seed
        ctx.ob('state word %d after seeding' % k, init.short)
        j = same(W, W.mem[c], exp)
        if j is not None:
            ctx.bad('seeding', init, '%s:%s' % (init.file, init.line), 'state word %d is not 1812433253 * (w ^ (w >> 30)) + %d of the word before (MT19937 seeding)' % (k, k) if k else 'the first state word is not the seed')
            return
        prev = W.mem[c]
    # any state
    mt = [word('mt', k) for k in range(N)]
    for c, x in zip(words, mt):
        W.mem[c] = x
    first = dict((k, W.mem[k]) for k in rest)
    exp = ref_twist(mt)
    gen = next((f for f in prog.funcs if f.short.endswith('genrand_int32')), nxt)
    at = '%s:%s' % (gen.file, gen.line)
    for k in range(N):
        r = W.call(nxt, [('P', 'this', 0)])
        if isinstance(r, int) or r is None:
            ctx.bad('output', gen, at, 'output %d does not depend on the state' % k)
            return
        if k == 0:
            for q, c in enumerate(words):
                ctx.ob('state word %d after a regeneration' % q, gen.short)
                j = same(W, W.mem[c], exp[q])
                if j is not None:
                    if same(W, W.mem[c], mt[q]) is None:
                        break       # words are renewed one by one: judged below
                    if opaque(W, W.mem[c]):
                        raise Undecided('state word not linear')
                    ctx.bad('recurrence', gen, at, 'bit %d of state word %d becomes %s instead of %s (MT19937 recurrence)' % (j, q, show(W.bits(W.mem[c], 32)[j]), show(exp[q][j])))
                    return
        ctx.ob('output %d of a block' % k, gen.short)
        j = same(W, r, ref_temper(exp[k]))
        if j is not None:
            if opaque(W, r):
                raise Undecided('output not linear')
            ctx.bad('output', gen, at, 'bit %d of output %d of a block is %s instead of %s (MT19937 tempering of state word %d)' % (j, k, show(W.bits(r, 32)[j]), show(ref_temper(exp[k])[j]), k))
            return
    ctx.ob('after a block the counter is where it was', gen.short)
    for q, c in enumerate(words):
        j = same(W, W.mem[c], exp[q])
        if j is not None:
            ctx.bad('recurrence', gen, at, 'state word %d is not that of MT19937 after a block' % q)
            return
    now = dict((k, W.mem.get(k)) for k in rest)
    if now != first:
        # a different representation of "block used up"? one more block tells
        for c, x in zip(words, mt):
            W.mem[c] = x
        for k in range(N):
            r = W.call(nxt, [('P', 'this', 0)])
            j = same(W, r, ref_temper(exp[k]))
            if j is not None:
                ctx.bad('block', gen, at, 'output %d of the second block is not that of MT19937' % k)
                return
        if dict((k, W.mem.get(k)) for k in rest) != now:
            raise Undecided('counter after a block')
    ctx.counts['linear steps'] = W.steps


CONST = {}


class Rand(Formula):
    def call(self, p, i, n, a):
        d = i.dem or ''
        if 'mersenne_twister::next(' in d:
            k = sum(1 for e in p.ev if e[0] == 'rnd')
            p.ev.append(('rnd', k, i))
            p.env[i.id] = var('rnd', p.base or '', k)
            return True
        if n in ('log', 'sin', 'cos') or re.match(r'^std::(log|sin|cos|sqrt)\(', d) or n in ('std::log', 'std::sin', 'std::cos', 'std::sqrt'):
            p.env[i.id] = var(n.split('::')[-1], a[0].key())
            self.remember(p.env[i.id], n.split('::')[-1], a[0], None)
            return True
        if re.search(r'^(std::)?(atan|acos|asin)$', n) and isinstance(a[0], R) and a[0].const() is not None and abs(a[0].const()) <= 1:
            p.env[i.id] = num(Fraction(getattr(math, n.split('::')[-1])(float(a[0].const()))))
            return True
        if re.search(r'std::vector<int.*>::(resize|assign)\(', d):
            p.ev.append(('resize', a[1], i))
            return True
        if re.search(r'std::vector<int.*>::(operator\[\]|at)\(', d):
            r, o = self.ptr(a[0])
            p.env[i.id] = ('P', ('vec', r, a[1].key()), 0)
            self.keys[a[1].key()] = a[1]
            return True
        if re.search(r'std::vector<int.*>::clear\(', d):
            p.ev.append(('clear', i))
            return True
        if re.search(r'std::vector<int.*>::push_back\(', d):
            p.ev.append(('push', self.load(p, *(self.ptr(a[1]) + (4, 'i32'))), i))
            return True
        if 'std::map<int, int' in d:
            m = re.search(r'>>>::(operator\[\]|count|map|~map|begin|end|find)\(', d)
            op = m.group(1) if m else None
            if op in ('operator[]', 'count'):
                kr, ko = self.ptr(a[1])
                key = self.load(p, kr, ko, 4, 'i32')
                if not isinstance(key, R):
                    raise Undecided('key')
                self.keys[key.key()] = key
                p.env[i.id] = ('P', ('map', key.key()), 0) if op == 'operator[]' else var('present', key.key())
                if op == 'operator[]':
                    p.ev.append(('at', key, i))
                return True
            if op in ('map', '~map'):
                return True
            if op in ('begin', 'end'):
                p.env[i.id] = ('P', (op,), 0)
                return True
        if '_Rb_tree_iterator' in d:
            if 'operator!=' in d or 'operator==' in d:
                p.env[i.id] = ('cmp', 'ne' if 'operator!=' in d else 'eq', var('it'), var('end'))
                return True
            if 'operator->' in d or 'operator*' in d:
                p.env[i.id] = ('P', ('entry',), 0)
                return True
            if 'operator++' in d:
                p.ev.append(('next', i))
                p.env[i.id] = a[0]
                return True
        return False

    def __init__(self, *a, **k):
        Formula.__init__(self, *a, **k)
        self.keys = {}

    def initial(self, p, root, off, sz, ty):
        if isinstance(root, str) and root.startswith('g:'):
            d = self.prog.globals.get(root[2:])
            if d and d.get('init') is not None and (d.get('const') or d.get('onlyloaded')):
                v = d['init']
                try:
                    v = v[off // sz] if isinstance(v, list) else v
                    return num(Fraction(float(v)) if ty in ('double', 'float') else int(v))
                except (ValueError, IndexError, TypeError):
                    pass
            if (root, off) not in CONST:
                CONST[root, off] = None
                fs = [f for f in self.prog.funcs if any(i.op == 'store' and i.ops[1] == root for i in f.insts())]
                if fs and all(f.short.startswith('__cxx_global_var_init') for f in fs):
                    fo = Rand(self.prog, fs[0])
                    ps = [q for q in fo.run() if q.end == 'ret']
                    if len(ps) == 1:
                        CONST[root, off] = fo.load(ps[0], root, off, sz, ty)
            v = CONST[root, off]
            if isinstance(v, R) and v.const() is not None:
                return v
        return var('ld', root, off)


def lshr(fo, x, k):
    return var('lshr', x.key(), num(k).key())


def uniform(fo, base, k):
    a, b = var('rnd', base, k), var('rnd', base, k + 1)
    return (lshr(fo, a, 5) * num(1 << 26) + lshr(fo, b, 6)) * num(Fraction(1, 1 << 53))


KNOWN = ('rnd', 'lshr', 'udiv', 'arg', 'fptoui', 'fptosi', 'ld', 'sqrt', 'log', 'sin', 'cos', 'undef', 'mem', 'phi')


def understood(x):
    """are all indeterminates inputs, draws and the functions of the formulas?"""
    return all(a[0] in KNOWN + ('urem', 'srem') for a in x.atoms())


def judge(ctx, fo, f, what, got, want, text):
    ctx.ob('%s is %s' % (what, text), f.short)
    if not isinstance(got, R):
        raise Undecided('result')
    if got.same(want) or got.close(want):
        return True
    if understood(got):
        ctx.bad('formula', f, f.file if not f.file.startswith('/') else 'math/random.h', '%s gives %s instead of %s' % (what, repr(got)[:160], text))
        return False
    raise Undecided('%s: %s' % (what, repr(got)[:100]))


def paths(fo):
    ps = [p for p in fo.run() if p.end == 'ret']
    if not ps:
        raise Undecided('no path')
    return ps


def rnds(p):
    return sum(1 for e in p.ev if e[0] == 'rnd')


def draws(ctx, prog, f, op):
    fo = Rand(prog, f)
    ps = paths(fo)
    u = uniform(fo, '', 0)
    a, b = var('arg', 'a1'), var('arg', 'a2')

    def floor(x):
        return var('fptoui', x.key())
    want = {'int': (var('rnd', '', 0), 1, 'the next output'), 'op': (var('rnd', '', 0), 1, 'the next output'),
            'int1': (floor(u * a), 2, 'floor(a*u)'), 'op1': (floor(u * a), 2, 'floor(a*u)'),
            'int2': (a + floor(u * (b - a)), 2, 'a + floor((b-a)*u)'), 'op2': (a + floor(u * (b - a)), 2, 'a + floor((b-a)*u)'),
            'dbl': (u, 2, '(x*2^26+y)/2^53 with x, y the top 27 and 26 bits of two outputs'), 'dbl1': (a * u, 2, 'a*u'), 'dbl2': (a + (b - a) * u, 2, 'a + (b-a)*u')}
    names = {'int': 'next_int()', 'op': 'operator()()', 'int1': 'next_int(a)', 'op1': 'operator()(a)', 'int2': 'next_int(a,b)', 'op2': 'operator()(a,b)', 'dbl': 'next_double()', 'dbl1': 'next_double(a)',
             'dbl2': 'next_double(a,b)'}
    w, n, t = want[op]
    for p in ps:
        if p.conds:
            raise Undecided('%s depends on conditions' % names[op])
        if not judge(ctx, fo, f, names[op], p.ret, w, t):
            return


def gauss(ctx, prog, f, op, layout):
    fo = Rand(prog, f)
    ps = paths(fo)
    flag, stock = layout
    u1, u2 = uniform(fo, '', 0), uniform(fo, '', 2)
    one = num(1)
    d = prog.globals
    pi = num(Fraction(math.pi))
    r = var('sqrt', (num(-2) * var('log', (one - u1).key())).key())
    s, c = r * var('sin', (num(2) * pi * (one - u2)).key()), r * var('cos', (num(2) * pi * (one - u2)).key())
    wrap = (lambda x: x) if op == 'gauss' else (lambda x: var('arg', 'a1') + var('arg', 'a2') * x)
    kinds = set()
    for p in ps:
        n = rnds(p)
        fl = fo.load(p, 'a0', flag, 1, 'i8')
        k = fl.const() if isinstance(fl, R) else None
        if n == 0:
            kinds.add('kept')
            if not judge(ctx, fo, f, 'a kept Gaussian', p.ret, wrap(var('ld', 'a0', stock)), 'the stored value (mean + deviation * it)'):
                return
            ctx.ob('a kept value is used once', f.short)
            if k != 0:
                ctx.bad('kept', f, 'math/random.h', 'a stored Gaussian is handed out again: the flag is %s after it was used' % (fl,))
                return
        elif n == 4:
            kinds.add('new')
            st = fo.load(p, 'a0', stock, 8, 'double')
            ok = False
            for x, y in ((s, c), (c, s)):
                if near(fo, p.ret, wrap(x)) and near(fo, st, y):
                    ok = True
            ctx.ob('a new pair of Gaussians is sqrt(-2 log a) sin/cos(2 pi b) with a, b in (0,1]', f.short)
            if not ok:
                if understood(p.ret) and understood(st):
                    ctx.bad('formula', f, 'math/random.h', 'a new pair of Gaussians is not the Box-Muller pair of two uniform numbers in (0,1]: returned %s, stored %s' % (repr(p.ret)[:200], repr(st)[:200]))
                    return
                raise Undecided('Gaussian formula')
            if k != 1:
                ctx.bad('kept', f, 'math/random.h', 'the second Gaussian of a pair is stored but the flag is %s' % (fl,))
                return
        else:
            raise Undecided('%d outputs consumed' % n)
        t = [(c_, v) for c_, v in p.conds]
        if len(t) == 1:
            ok = flagval(t[0], flag)
            if ok is not None:
                ctx.ob('a stored value is used exactly when there is one', f.short)
                if ok != (n == 0):
                    ctx.bad('kept', f, 'math/random.h', 'a stored Gaussian is used when the flag says there is none')
                    return
    if kinds != {'kept', 'new'}:
        raise Undecided('Gaussian paths %s' % sorted(kinds))


def flagval(t, flag):
    """truth of the flag under this condition"""
    c, v = t
    at = ('ld', 'a0', flag)

    def is_flag(x):
        return isinstance(x, R) and (x.atom() == at or (x.atom() and x.atom()[0] == 'trunc' and repr(at) in repr(x.atom())))
    if c[0] == 'bool' and is_flag(c[1]):
        return v
    if c[0] == 'cmp' and is_flag(c[2]) and isinstance(c[3], R) and c[3].const() == 0:
        return v if c[1] == 'ne' else not v if c[1] == 'eq' else None
    return None


def near(fo, x, y):
    return isinstance(x, R) and (x.same(y) or x.close(y))


def loops(f):
    return sorted(f.loops())


def entry_state(fo, f, h):
    st = Path()
    for i in f.blocks[h]:
        if i.op == 'phi':
            st.env[i.id] = var('phi', h, i.id) if i.ty != 'ptr' else ('P', ('phi', i.id), 0)
    st.base = 'L%d' % h
    return st


def refused(ctx, f, entry, cond):
    """the early-return paths are exactly those of invalid arguments: decided by evaluating the conditions for all order relations"""
    n, k = var('arg', 'a1'), var('arg', 'a2')
    for x in (-2, -1, 0, 1, 2, 3):
        for y in (-2, -1, 0, 1, 2, 3):
            val = {('arg', 'a1'): x, ('arg', 'a2'): y}

            def ev(r):
                c = r.const()
                if c is not None:
                    return c
                t = Fraction(0)
                for m, co in r.n.items():
                    z = co
                    for a, e in m:
                        if a not in val:
                            raise Undecided('condition')
                        z *= Fraction(val[a]) ** e
                    t += z
                return t

            def holds(c):
                if c[0] == 'cmp' and isinstance(c[2], R) and isinstance(c[3], R):
                    s, t = ev(c[2]), ev(c[3])
                    return {'eq': s == t, 'ne': s != t, 'lt': s < t, 'le': s <= t, 'gt': s > t, 'ge': s >= t}[c[1]]
                if c[0] == 'not':
                    return not holds(c[1])
                if c[0] in ('and', 'or'):
                    return (all if c[0] == 'and' else any)(holds(z) for z in c[1:])
                raise Undecided('condition')
            live = [p for p in entry if all(holds(c) == v for c, v in p.conds)]
            if len(live) != 1:
                raise Undecided('conditions at entry')
            p = live[0]
            ok = not (p.end == 'ret' and isinstance(p.ret, R) and p.ret.const() == 0)
            ctx.ob('n=%d, k=%d' % (x, y), f.short)
            if ok != cond(x, y):
                ctx.bad('arguments', f, 'math/random.h', 'sampling %d out of %d is %s' % (y, x, 'attempted' if ok else 'refused'))
                return False
    return True


def counter(fo, f, h, p, first):
    """the loop variable: a phi or a cell that grows by one; its (id, value at the head)"""
    out = []
    for i in f.blocks[h]:
        if i.op == 'phi' and i.ty in ('i32', 'i64'):
            out.append((('phi', i.id), var('phi', h, i.id), p.phis[i.id]))
    cells = set()
    for e in p.log:
        if e[0] == 'st' and isinstance(e[1], str) and e[1].startswith('%') and e[3] == 4:
            cells.add((e[1], e[2]))
    for r, o in sorted(cells):
        out.append((('cell', r, o), var('undef', r, o), fo.load(p, r, o, 4, 'i32')))
    return [(w, x) for w, x, y in out if isinstance(y, R) and y.same(x + num(1))]


def starts(fo, p, w):
    v = p.phis.get(w[1]) if w[0] == 'phi' else fo.load(p, w[1], w[2], 4, 'i32')
    return v.const() if isinstance(v, R) else None


def limit(p, i, k):
    """does the path run a round only for i < k?"""
    for c, v in p.conds:
        if c[0] != 'cmp':
            continue
        r = c[1] if v else NEG[c[1]]
        x, y = c[2], c[3]
        if not isinstance(x, R) or not isinstance(y, R):
            continue
        if x.same(i) and y.same(k) and r in ('lt', 'ne'):
            return True
        if y.same(i) and x.same(k) and r in ('gt', 'ne'):
            return True
    return False


def sample_with(ctx, prog, f):
    hs = loops(f)
    if len(hs) != 1:
        raise Undecided('loops')
    h = hs[0]
    fo = Rand(prog, f, cuts=[h])
    entry = fo.run()
    n, k = var('arg', 'a1'), var('arg', 'a2')
    if not refused(ctx, f, entry, lambda x, y: x > 0 and y >= 0):
        return
    ins = [p for p in entry if p.end == ('cut', h)]
    for p in ins:
        rs = [e[1] for e in p.ev if e[0] == 'resize']
        ctx.ob('the result has k places', f.short)
        if len(rs) != 1:
            raise Undecided('resize')
        if not rs[0].same(k):
            ctx.bad('size', f, 'math/random.h', 'the result gets %s places instead of k' % (rs[0],))
            return
    rounds = [p for p in fo.run(h, entry_state(fo, f, h)) if p.end == ('cut', h)]
    if len(rounds) != 1:
        raise Undecided('rounds')
    p = rounds[0]
    cs = [c for c in counter(fo, f, h, p, ins) if limit(p, c[1], k) and all(starts(fo, q, c[0]) == 0 for q in ins)]
    st = [e for e in p.log if e[0] == 'st' and isinstance(e[1], tuple) and e[1][0] == 'vec']
    if len(cs) != 1 or len(st) != 1:
        raise Undecided('shape of the loop')
    i = cs[0][1]
    ctx.ob('each place gets a value', f.short)
    if fo.keys[st[0][1][2]].key() != i.key():
        ctx.bad('place', f, 'math/random.h', 'round i fills place %s' % fo.keys[st[0][1][2]])
        return
    judge(ctx, fo, f, 'a sampled value', st[0][4], var('fptoui', (uniform(fo, 'L%d' % h, 0) * n).key()), 'floor(n*u)')


def sample_without(ctx, prog, f):
    hs = loops(f)
    if len(hs) != 3:
        raise Undecided('loops')
    fo = Rand(prog, f, cuts=hs)
    entry = fo.run()
    n, k = var('arg', 'a1'), var('arg', 'a2')
    if not refused(ctx, f, entry, lambda x, y: x > 0 and 0 <= y <= x):
        return
    segs = {}
    into = dict((h, []) for h in hs)
    for p in entry:
        if p.end != 'ret':
            into[p.end[1]].append(p)
    for h in hs:
        segs[h] = fo.run(h, entry_state(fo, f, h))
        for p in segs[h]:
            if isinstance(p.end, tuple) and p.end[1] != h:
                into[p.end[1]].append(p)

    def mapstores(p):
        return [(fo.keys[e[1][1]], e[4]) for e in p.log if e[0] == 'st' and isinstance(e[1], tuple) and e[1][0] == 'map']
    h1 = next((h for h in hs if any(p.end == ('cut', h) and mapstores(p) and not rnds(p) for p in segs[h])), None)
    h2 = next((h for h in hs if any(rnds(p) for p in segs[h])), None)
    h3 = next((h for h in hs if h not in (h1, h2)), None)
    if h1 is None or h2 is None or h3 is None:
        raise Undecided('loops')

    def one_counter(h):
        back = [p for p in segs[h] if p.end == ('cut', h)]
        cs = None
        for p in back:
            c = [w for w in counter(fo, f, h, p, None) if limit(p, w[1], k)]
            cs = c if cs is None else [w for w in cs if w[0] in [z[0] for z in c]]
        if not cs or len(cs) != 1:
            raise Undecided('loop variable')
        if not into[h] or any(starts(fo, q, cs[0][0]) != 0 for q in into[h]):
            raise Undecided('start of the loop')
        return cs[0][1], back
    i, back = one_counter(h1)
    for p in back:
        ctx.ob('position i starts with value i', f.short)
        ms = mapstores(p)
        if len(ms) != 1 or not isinstance(ms[0][1], R):
            raise Undecided('first loop')
        if not (ms[0][0].same(i) and ms[0][1].same(i)):
            ctx.bad('start', f, 'math/random.h', 'position %s starts with value %s' % ms[0])
            return
    i, back = one_counter(h2)
    b = 'L%d' % h2
    j = i + var('fptoui', (uniform(fo, b, 0) * (n - i)).key())
    for p in back:
        if rnds(p) != 2:
            raise Undecided('draws per round')
        ks = [x for x in dict((e[1].key(), e[1]) for e in p.ev if e[0] == 'at').values() if not x.same(i)]
        if len(ks) != 1:
            raise Undecided('positions touched in a round')
        if not judge(ctx, fo, f, 'the position to exchange with i', ks[0], j, 'i + floor((n-i)*u)'):
            return
        K = ks[0]
        pres = None
        for c, v in p.conds:
            if c[0] == 'cmp' and isinstance(c[2], R) and c[2].atom() == ('present', K.key()) and isinstance(c[3], R) and c[3].const() == 0:
                pres = v if c[1] in ('ne', 'gt') else not v
        if pres is None:
            raise Undecided('presence of the position')
        old = dict(((i.key(), var('ld', ('map', i.key()), 0)), (K.key(), var('ld', ('map', K.key()), 0) if pres else K)))
        fi, fk = [fo.load(p, ('map', x.key()), 0, 4, 'i32') for x in (i, K)]
        ctx.ob('a round exchanges the values at i and j (%s)' % ('present' if pres else 'new'), f.short)
        if not (fi.same(old[K.key()]) and fk.same(old[i.key()])):
            ctx.bad('exchange', f, 'math/random.h', 'a round does not exchange the values at positions i and j: they become %s and %s, so a value can occur twice or be lost' % (fi, fk))
            return
    pk, pv = var('ld', ('entry',), 0), var('ld', ('entry',), 4)
    for p in into[h3]:
        rs = [e[1] for e in p.ev if e[0] == 'resize']
        if len(rs) != 1:
            raise Undecided('resize')
        ctx.ob('the result has k places', f.short)
        if not rs[0].same(k):
            ctx.bad('size', f, 'math/random.h', 'the result gets %s places instead of k' % (rs[0],))
            return
    for p in segs[h3]:
        if p.end != ('cut', h3):
            continue
        st = [e for e in p.log if e[0] == 'st' and isinstance(e[1], tuple) and e[1][0] == 'vec']
        lo = up = None
        for c, v in p.conds:
            if c[0] == 'cmp' and isinstance(c[2], R) and isinstance(c[3], R):
                r, x, y = c[1] if v else NEG[c[1]], c[2], c[3]
                if y.same(pv):
                    r, x, y = SWAP[r], y, x
                if x.same(pv) and y.const() == 0 and r in ('ge', 'lt'):
                    lo = r == 'ge'
                if x.same(pv) and y.const() == -1 and r in ('gt', 'le'):
                    lo = r == 'gt'
                if x.same(pv) and y.same(k) and r in ('lt', 'ge'):
                    up = r == 'lt'
                if x.same(pv) and y.same(k) and r in ('le', 'eq', 'gt'):
                    up = False
                if x.same(pv) and y.same(k - num(1)) and r in ('le', 'gt'):
                    up = r == 'le'
        def admits(val, kk):
            # do the tests of this path on the value and k let this pair through?
            for c, v in p.conds:
                if c[0] == 'cmp' and isinstance(c[2], R) and isinstance(c[3], R):
                    z = c[2] - c[3]
                    if z.atoms() and set(z.atoms()) <= {pv.atom(), k.atom()} and len(z.d) == 1:
                        t = Fraction(0)
                        for m, q in z.n.items():
                            for a, e in m:
                                q = q * Fraction(val if a == pv.atom() else kk) ** e
                            t += q
                        w = {'eq': t == 0, 'ne': t != 0, 'lt': t < 0, 'le': t <= 0, 'gt': t > 0, 'ge': t >= 0}[c[1]]
                        if w != v:
                            return False
                    elif pv.atom() in z.atoms():
                        raise Undecided('selection of entries')
            return True
        if not st and any(admits(a, b) for b in range(1, 5) for a in range(b)):
            ctx.bad('result', f, 'math/random.h', 'an entry with a value below k is left out of the result')
            return
        inside = up is True        # values are never negative
        ctx.ob('an entry whose value is below k gives the place its position', f.short)
        if lo is False:
            continue
        if up is None and not st:
            raise Undecided('selection of entries')
        if inside:
            if len(st) != 1:
                ctx.bad('result', f, 'math/random.h', 'an entry with a value below k is left out of the result')
                return
            if not (fo.keys[st[0][1][2]].same(pv) and isinstance(st[0][4], R) and st[0][4].same(pk)):
                ctx.bad('result', f, 'math/random.h', 'place %s of the result gets %s' % (fo.keys[st[0][1][2]], st[0][4]))
                return
        elif st:
            ctx.bad('result', f, 'math/random.h', 'an entry whose value may be k or more is written to the result')
            return


def check(ctx):
    prog = ctx.prog('math')
    ctx.counts['undecided'] = 0

    def attempt(what, fn):
        try:
            fn()
        except Undecided as e:
            ctx.counts['undecided'] += 1
            ctx.sample('undecided %s: %s' % (what, e)) if hasattr(ctx, 'sample') else ctx.samples.append('undecided %s: %s' % (what, e))
    attempt('generator', lambda: generator(ctx, prog))
    layout = None
    for f in prog.funcs:
        m = re.match(r'^(?:[\w:<>& *]+ )?driver_math::r_(\w+)\(', f.dem or '')
        if m and m.group(1) == 'seed':
            # the flag: the byte the constructor clears
            st = [i for i in f.insts() if i.op == 'store' and i.d.get('vt') == 'i8' and i.ops[0] == 'c:0']
            for i in st:
                g = f.defs.get(i.ops[1])
                if g is not None and g.op == 'getelementptr':
                    layout = g.d['off']
                    ctx.ob('a new generator has no stored Gaussian', f.short)
            if layout is None:
                st = [i for i in f.insts() if i.op == 'store' and i.d.get('vt') == 'i8']
                if st and st[0].ops[0].startswith('c:'):
                    ctx.bad('kept', f, 'math/random.h', 'a new generator claims to have a stored Gaussian')
                elif not st and any('mersenne_twister::mersenne_twister' in i.dem for i in f.calls()) and not any(i.op == 'store' and i.ops[1] != 'a0' or
                                                                                                                  i.iscall and 'memset' in i.dem for i in f.insts()):
                    g = next((g for g in prog.funcs if re.search(r'driver_math::r_gauss\(', g.dem or '')), None)
                    ld = [i for i in g.insts() if i.op == 'load' and i.ty == 'i8'] if g else []
                    d = g.defs.get(ld[0].ops[0]) if ld else None
                    if d is not None and d.op == 'getelementptr':
                        layout = d.d['off']
                        ctx.bad('kept', f, 'math/random.h', 'a new generator does not say whether it has a stored Gaussian: the flag stays uninitialised')
    n = 0
    for f in prog.funcs:
        m = re.match(r'^(?:[\w:<>& *]+ )?driver_math::r_(\w+)\(', f.dem or '')
        if not m:
            continue
        op = m.group(1)
        n += 1
        if op in ('int', 'op', 'int1', 'op1', 'int2', 'op2', 'dbl', 'dbl1', 'dbl2'):
            attempt(f.short, lambda: draws(ctx, prog, f, op))
        elif op in ('gauss', 'gauss2'):
            if layout is None:
                ctx.counts['undecided'] += 1
                continue
            attempt(f.short, lambda: gauss(ctx, prog, f, op, (layout, (layout + 8) // 8 * 8)))
        elif op == 'with':
            attempt(f.short, lambda: sample_with(ctx, prog, f))
        elif op == 'without':
            attempt(f.short, lambda: sample_without(ctx, prog, f))
    ctx.counts['functions'] = n
    ctx.need('functions', n, 10)

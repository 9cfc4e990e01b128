"""Rational numbers: exact value, lowest terms, positive denominator."""
from math import gcd as igcd
from formula import *
from itertools import product as iproduct

RULE = '''Every operation of ratio<T> is reduced by value numbering to the numerator and denominator it leaves as functions of those of its operands, with gcd() kept as
an indeterminate that divides its arguments. Value: the quotient must be that of the operation on the operands, also when both are the same object. Form: the
denominator must be positive (sign analysis) and the result in lowest terms, by one of two arguments: both parts are divided by their own gcd, or the factors are cancelled
crosswise by the gcds of numerators with denominators of operands in lowest terms. gcd() itself is Euclid's: each round of its loop keeps the gcd of the pair and its result is positive.
Where neither argument fits, the formula is instantiated with small operands; a counterexample is a violation, otherwise the operation counts as undecided.'''
ASSUME = ['no overflow of T', 'denominators given to the constructor and divisors are not zero', 'operands satisfy the class invariant, which every constructor and operation is shown to establish']


class Ratio(Formula):
    def __init__(self, prog, f, sz, cuts=()):
        Formula.__init__(self, prog, f, cuts)
        self.sz = sz
        self.defs = {}

    def call(self, p, i, n, a):
        if re.search(r'ratio<\w+>::gcd\(', i.dem or ''):
            p.env[i.id] = self.gcd(a[0], a[1])
            return True
        if re.search(r'\bstd::(__)?gcd<|\b__gcd', i.dem or '') and all(isinstance(x, R) for x in a[:2]):
            p.env[i.id] = self.gcd(a[0], a[1])
            return True
        if re.search(r'^(long|int) .*\babs\(|^l?labs$|^abs$|std::abs\(', i.dem or '') or n in ('abs', 'labs', 'llabs'):
            r = var('abs', self.plus(a[0]).key())
            self.remember(r, 'abs', a[0], None)
            p.env[i.id] = r
            return True
        return False

    def plus(self, x):
        """x or -x, whichever has the smaller key"""
        return min((x, -x), key=lambda y: repr(y.key()))

    pos = ()

    def gcd(self, x, y):
        for u, v in ((x, y), (y, x)):
            if (u.const() == 0 or u.same(v) or u.same(-v)) and self.sign(v, [], self.pos) == (1, frozenset()):
                return v
        k = sorted((self.plus(x).key(), self.plus(y).key()), key=repr)
        r = var('gcd', k[0], k[1])
        self.defs[r.atom()] = ('gcd', x, y)
        return r

    def exact(self, x, y):
        # x / (unit * gcds): every gcd must divide x by construction
        if not x.n:
            return True
        if len(y.n) != 1 and x.same(y):
            return True
        if len(y.n) != 1 or y.d != {(): 1}:
            return False
        (m, c), = y.n.items()
        if abs(c) != 1:
            return False
        rest = x
        for a, e in m:
            d = self.defs.get(a)
            if d is None:
                q = rest / R(patom(a))
                if e != 1 or q.d != {(): 1}:
                    return False
                rest = q
                continue
            if e != 1:
                return False
            if d[0] == 'select':
                k = [v.const() if isinstance(v, R) else None for v in d[2:4]]
                if sorted(k, key=repr) != sorted([Fraction(1), Fraction(-1)], key=repr):
                    return False
                continue
            if d[0] != 'gcd':
                return False
            ok = None
            for g in (d[1], d[2]):
                if not g.n:
                    continue
                q = num(1) if rest.same(g) else num(-1) if rest.same(-g) else rest / g
                if q.d == {(): 1} and all(v.denominator == 1 for v in q.n.values()):
                    ok = q
            if ok is None:
                return False
            rest = ok
        return True

    # ---- signs: a set of unknown signs whose product it is, and +1/-1; None if zero is possible or it is unknown
    def sign(self, x, conds, pos):
        def known(r):
            for c, v in conds:
                if c[0] != 'cmp':
                    continue
                z = c[2] - c[3]
                for q, s in ((r, 1), (-r, -1)):
                    if z.same(q):
                        p = c[1] if v else NEG[c[1]]
                        if p in ('lt', 'le'):
                            return -s
                        if p in ('gt', 'ge'):
                            return s
            return None
        k = x.const()
        if k is not None:
            return (1 if k > 0 else -1, frozenset()) if k else None
        s = known(x)
        if s:
            return s, frozenset()
        sg, unk = 1, frozenset()
        for p in (x.n, x.d):
            if len(p) != 1:
                r = self.plus(R(p))
                s = known(r)
                if s is None:
                    unk = unk ^ {repr(r.key())}
                    s = 1
                sg *= s if r.same(R(p)) else -s
                continue
            (m, c), = p.items()
            sg *= 1 if c > 0 else -1
            for a, e in m:
                if e % 2 == 0:
                    continue
                if a in pos or (isinstance(a, tuple) and a[0] in ('gcd', 'abs')):
                    continue
                s = known(R(patom(a)))
                if s:
                    sg *= s
                    continue
                d = self.defs.get(a)
                if d and d[0] == 'select' and d[1][0] == 'cmp':
                    t, e1 = [v.const() for v in d[2:4]]
                    z = d[1][2] - d[1][3]
                    q = self.sign(z, conds, pos)
                    pr = d[1][1]
                    if q is None or pr not in ('lt', 'le', 'gt', 'ge') or t != -e1:
                        return None
                    sg *= int(t) * (1 if pr in ('gt', 'ge') else -1) * q[0]
                    unk = unk ^ q[1]
                    continue
                unk = unk ^ {repr(R(patom(a)).key())}
        return sg, unk

    # ---- instantiate a formula
    def at(self, x, sub):
        def atom(a):
            if a in sub:
                return Fraction(sub[a])
            d = self.defs.get(a)
            if d is None:
                raise Undecided('atom %s' % name(a))
            if d[0] == 'gcd':
                return Fraction(igcd(int(self.at(d[1], sub)), int(self.at(d[2], sub))))
            if d[0] == 'abs':
                return abs(self.at(d[1], sub))
            if d[0] == 'select':
                return self.at(d[2] if self.holds(d[1], sub) else d[3], sub)
            if d[0] in ('sdiv', 'srem'):
                u, v = self.at(d[1], sub), self.at(d[2], sub)
                q = abs(int(u)) // abs(int(v)) * (1 if (u >= 0) == (v >= 0) else -1)
                return Fraction(q if d[0] == 'sdiv' else int(u) - q * int(v))
            raise Undecided('atom')

        def pol(p):
            s = Fraction(0)
            for m, c in p.items():
                for a, e in m:
                    c = c * atom(a) ** e
                s += c
            return s
        return pol(x.n) / pol(x.d)

    def holds(self, c, sub):
        if c[0] == 'bool':
            return bool(self.at(c[1], sub))
        if c[0] != 'cmp':
            raise Undecided('condition')
        k = self.at(c[2], sub) - self.at(c[3], sub)
        return {'eq': k == 0, 'ne': k != 0, 'lt': k < 0, 'le': k <= 0, 'gt': k > 0, 'ge': k >= 0}[c[1]]


def where(f):
    ls = [i for i in f.insts() if 'ratio.h' in i.where()]
    return ls[-1].where() if ls else f.file


TEXT = {'zero': 'the default constructor', 'whole': 'the constructor from an integer', 'make': 'the constructor from two integers', 'addeq': 'a += b', 'subeq': 'a -= b', 'muleq': 'a *= b', 'diveq': 'a /= b',
        'addself': 'a += a', 'subself': 'a -= a', 'mulself': 'a *= a', 'divself': 'a /= a', 'add': 'a + b', 'sub': 'a - b', 'mul': 'a * b', 'div': 'a / b'}


def one(ctx, prog, f, sz, op):
    fo = Ratio(prog, f, sz)
    if op.endswith('self'):
        a, b = 'a0', 'a0'
    elif op.endswith('eq'):
        a, b = 'a0', 'a1'
    else:
        a, b = 'a1', 'a2'
    an, ad, bn, bd = var('ld', a, 0), var('ld', a, sz), var('ld', b, 0), var('ld', b, sz)
    fo.pos = pos = {ad.atom(), bd.atom()} if op not in ('zero', 'whole', 'make') else set()
    ps = [p for p in fo.run() if p.end == 'ret']
    if op in ('num', 'den'):
        ctx.ob('%s() returns its part' % op, f.short)
        if len(ps) != 1 or not isinstance(ps[0].ret, R):
            raise Undecided('result')
        if not ps[0].ret.same(var('ld', 'a0', 0 if op == 'num' else sz)):
            ctx.bad('part', f, where(f), '%s() returns %s' % (op, ps[0].ret))
        return
    if op == 'eq':
        from p30 import compare
        ctx.ob('operator== for %d relations of the parts' % compare(ctx, f, ps, 2, [0, sz], False, 'operator==', 'ratio.h'), f.short)
        return
    rs = 'a0'
    base = op[:3]
    if op == 'zero':
        want = num(0)
    elif op == 'whole':
        want = var('arg', 'a1')
    elif op == 'make':
        want = var('arg', 'a1') / var('arg', 'a2')
    elif base == 'add':
        want = an / ad + bn / bd
    elif base == 'sub':
        want = an / ad - bn / bd
    elif base == 'mul':
        want = an / ad * bn / bd
    elif base == 'div':
        want = (an / ad) / (bn / bd)
    else:
        raise Undecided('operation')
    what = TEXT.get(op, op)
    for p in ps:
        if not feasible(fo, p, pos):
            continue
        n, d = fo.load(p, rs, 0, sz, 'i32'), fo.load(p, rs, sz, sz, 'i32')
        if not isinstance(n, R) or not isinstance(d, R):
            raise Undecided('result')
        ctx.ob('%s leaves %s / %s' % (what, n, d), f.short)
        value = d.n and (n / d).same(want)
        s = fo.sign(d, p.conds, pos)
        positive = s is not None and s == (1, frozenset())
        low = lowest(fo, n, d, an, ad, bn, bd, op)
        if value and positive and low:
            continue
        cut = sz == 8 and any("'trunc'" in repr(x.key()) for x in (n, d))
        w = None if cut else witness(fo, p, n, d, want, op, sz, a, b)
        if cut:
            w = 'a value computed from the operands is cut down to a narrower integer type on the way to the result'
        if w:
            ctx.bad('value' if not value else 'form', f, where(f), '%s: %s' % (what, w))
            return
        raise Undecided('%s: %s not shown' % (what, 'value' if not value else 'sign' if not positive else 'lowest terms'))
    if not ps:
        raise Undecided('no path')


def feasible(fo, p, pos):
    for k, (c, v) in enumerate(p.conds):
        if c[0] != 'cmp':
            continue
        s = fo.sign(c[2] - c[3], p.conds[:k], pos)
        if s is not None and not s[1]:
            t = {'eq': False, 'ne': True, 'lt': s[0] < 0, 'le': s[0] < 0, 'gt': s[0] > 0, 'ge': s[0] > 0}[c[1]]
            if t != v:
                return False
    return True


def lowest(fo, n, d, an, ad, bn, bd, op):
    if d.const() in (1, -1):
        return True
    # divided by their own gcd
    for g in n.atoms() & d.atoms():
        x = fo.defs.get(g)
        if x and x[0] == 'gcd':
            G = R(patom(g))
            N, D = n * G, d * G
            sel = [a for a in N.atoms() & D.atoms() if fo.defs.get(a, [0])[0] == 'select']
            for s in [None] + sel:
                N1, D1 = (N, D) if s is None else (N * R(patom(s)), D * R(patom(s)))
                k = sorted((fo.plus(N1).key(), fo.plus(D1).key()), key=repr)
                if list(g[1:]) == k:
                    return True
    # cancelled crosswise
    gs = [g for g in n.atoms() & d.atoms() if fo.defs.get(g, [0])[0] == 'gcd']
    fr = [(an, ad), (bn, bd) if op[:3] != 'div' else (bd, bn)]
    if op[:3] in ('mul', 'div') and len(gs) <= 2:
        (x, z), (y, w) = fr
        g1, g2 = fo.gcd(x, w), fo.gcd(y, z)
        for s in (1, -1):
            if n.same(num(s) * x * y / (g1 * g2)) and (d.same(num(s) * z * w / (g1 * g2))):
                return True
    return False


def witness(fo, p, n, d, want, op, sz, a, b):
    R_ = range(-6, 7)
    if op in ('zero', 'whole', 'make'):
        cand = [{('arg', 'a1'): x, ('arg', 'a2'): y} for x in R_ for y in R_ if y]
    elif a == b:
        cand = [{('ld', a, 0): x, ('ld', a, sz): y} for x in R_ for y in range(1, 8) if igcd(x, y) == 1]
    else:
        one_ = [(x, y) for x in range(-4, 5) for y in range(1, 7) if igcd(x, y) == 1]
        cand = [{('ld', a, 0): x, ('ld', a, sz): y, ('ld', b, 0): u, ('ld', b, sz): v} for x, y in one_ for u, v in one_]
    for sub in cand:
        try:
            if op[:3] == 'div' and sub.get(('ld', b, 0)) == 0:
                continue
            if not all(fo.holds(c, sub) == v for c, v in p.conds):
                continue
            w = fo.at(want, sub)
            N, D = fo.at(n, sub), fo.at(d, sub)
        except ZeroDivisionError:
            continue
        at = ', '.join('%s = %d' % ('a b'.split()[k] if op not in ('make', 'whole') else ('numerator', 'denominator')[k], v) if op in ('make', 'whole') else v for k, v in enumerate(
            list(sub.values()) if op in ('make', 'whole', 'zero') else ['a = %d/%d' % (sub[('ld', a, 0)], sub[('ld', a, sz)])] + (['b = %d/%d' % (sub[('ld', b, 0)], sub[('ld', b, sz)])] if a != b else [])))
        if D == 0 or Fraction(N, D) != w:
            return 'for %s the result is %s/%s instead of %s' % (at, N, D, w)
        if D < 0:
            return 'for %s the result %s/%s has a negative denominator' % (at, N, D)
        if igcd(int(N), int(D)) != 1:
            return 'for %s the result %s/%s is not in lowest terms' % (at, N, D)
    return None


def euclid(ctx, prog, f):
    heads = sorted(f.loops())
    if len(heads) != 1:
        raise Undecided('gcd() is not one loop')
    h = heads[0]
    fo = Ratio(prog, f, 4, cuts=[h])
    A, B = var('arg', 'a0'), var('arg', 'a1')

    def unsigned(x, p):
        """|x| if the value is known not to be negative"""
        a = x.atom()
        d = fo.defs.get(a) if a else None
        if d and d[0] == 'abs':
            return d[1]
        s = fo.sign(x, p.conds, set())
        if s == (1, frozenset()):
            return x
        return None

    phis = [i.id for i in f.blocks[h] if i.op == 'phi' and re.match(r'^i\d+$', i.ty or '')]
    if len(phis) != 2:
        raise Undecided('gcd() does not carry two numbers')
    ok = set()
    entry = fo.run()
    for p in entry:
        if p.end != ('cut', h):
            raise Undecided('gcd() returns early')
        v = [p.phis[x] for x in phis]
        base = []
        for x in v:
            u = unsigned(x, p)
            base.append(fo.plus(u if u is not None else x).key())
            if u is None:
                ok.add('signed')
        if sorted(base, key=repr) != sorted([fo.plus(A).key(), fo.plus(B).key()], key=repr):
            ctx.bad('gcd', f, f.blocks[h][0].where(), 'gcd() starts from %s, %s' % tuple(v))
            return
    x, y = var('x'), var('y')
    st = Path()
    st.env[phis[0]], st.env[phis[1]] = x, y

    def reduce(u, v):
        for _ in range(8):
            du, dv = [fo.defs.get(z.atom()) if z.atom() else None for z in (u, v)]
            if du and du[0] in ('srem', 'urem') and du[2].same(v):
                u = du[1]
            elif dv and dv[0] in ('srem', 'urem') and dv[2].same(u):
                v = dv[1]
            else:
                break
        return sorted((u.key(), v.key()), key=repr)
    want = sorted((x.key(), y.key()), key=repr)
    for p in fo.run(h, st):
        if p.end == ('cut', h):
            v = [p.phis[k] for k in phis]
            ctx.ob('a round of gcd() keeps the gcd', f.short)
            if reduce(*v) != want:
                raise Undecided('round of gcd() not understood: %s, %s' % tuple(v))
        elif p.end == 'ret':
            r = p.ret
            a = r.atom() if isinstance(r, R) else None
            d = fo.defs.get(a) if a else None
            if d and d[0] == 'abs':
                r, ok_ = d[1], True
            else:
                ok_ = False
            zeros = [c[2] - c[3] for c, v in p.conds if c[0] == 'cmp' and (c[1] if v else NEG[c[1]]) == 'eq']
            ctx.ob('gcd() returns the gcd when a remainder is zero', f.short)
            if not any(reduce(z, r) == want or reduce(-z, r) == want for z in zeros):
                if zeros and r.atom() and any(z.atom() for z in zeros):
                    ctx.bad('gcd', f, f.file, 'gcd() returns %s when %s is 0' % (r, zeros[-1]))
                    return
                for a0 in range(1, 13):
                    for b0 in range(1, 13):
                        sub = {x.atom(): a0, y.atom(): b0}
                        try:
                            hit = all(fo.holds(c, sub) == v for c, v in p.conds)
                            got = fo.at(p.ret, sub)
                        except (Undecided, ZeroDivisionError):
                            continue
                        if hit and got != igcd(a0, b0):
                            ctx.bad('gcd', f, f.blocks[h][0].where(), 'gcd() of %d and %d gives %s' % (a0, b0, got))
                            return
                raise Undecided('result of gcd() not understood')
            if 'signed' in ok and not ok_:
                ctx.bad('gcd', f, f.blocks[h][0].where(), 'gcd() may be negative')
                return


def check(ctx):
    prog = ctx.prog('math')
    ctx.counts['undecided'] = 0
    n = 0
    for f in prog.funcs:
        m = re.match(r'^(?:[\w:<>& ]+ )?driver_math::q([il])_(\w+)\(', f.dem or '')
        g = re.search(r'ratio<(int|long)>::gcd\(', f.dem or '')
        if not m and not g:
            continue
        n += 1
        try:
            if g:
                euclid(ctx, prog, f)
            else:
                one(ctx, prog, f, 4 if m.group(1) == 'i' else 8, m.group(2))
        except Undecided as e:
            ctx.counts['undecided'] += 1
            ctx.samples.append('undecided %s: %s' % (f.short, e))
            ctx.ob('attempted', f.short)
    ctx.need('operations', n, 30)

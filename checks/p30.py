"""Fixed-size vectors: every operation computes its formula, component by component."""
from formula import *
from itertools import product

RULE = '''Each operation of the vector templates (both flavours, every dimension) is reduced to the rational functions it computes from the components of its
arguments, by value numbering over the field of rational functions; they must be those of linear algebra: component-wise sum, difference, negation, scaling and
quotient, inner and outer product, norm, length, normalisation and projection, also when the operands are the same object. Comparison is evaluated for all
order relations of the components; streaming and indexing must name each component once, in order.'''
ASSUME = ['floating-point expressions are compared as real-number expressions: rounding is not judged', 'the templates are instantiated for double']

OPS = {'zero': 'zero constructor', 'make': 'constructor from components', 'from': 'constructor from a pointer', 'to': 'writeToArray', 'add': 'operator+', 'sub': 'operator-', 'neg': 'unary operator-',
       'lmul': 'scalar * vector', 'rmul': 'vector * scalar', 'div': 'vector / scalar', 'dot': 'inner product', 'addeq': 'operator+=', 'subeq': 'operator-=', 'muleq': 'operator*=', 'diveq': 'operator/=',
       'addself': 'a += a', 'subself': 'a -= a', 'mulown': 'a *= a[0]', 'divown': 'a /= a[0]', 'eq': 'operator==', 'lt': 'operator<', 'norm': 'norm', 'abs': 'abs', 'unit': 'normalize', 'scaled': 'normalize',
       'munit': 'member normalize', 'mscaled': 'member normalize', 'proj': 'projection', 'read': 'operator>>', 'write': 'operator<<', 'cross': 'outer product'}


class Vec(Formula):
    def call(self, p, i, n, a):
        d = i.dem or ''
        if 'istream' in d and 'operator>>' in d and '(double&)' in d:
            r, o = self.ptr(a[1])
            k = sum(1 for e in p.ev if e[0] == 'in')
            p.log.append(('st', r, o, 8, var('in', k)))
            p.ev.append(('in', i))
            p.env[i.id] = a[0]
            return True
        if 'ostream' in d and 'operator<<' in d:
            p.ev.append(('out', a[1], i) if '(double)' in d else ('text', i.ops[1], i))
            p.env[i.id] = a[0]
            return True
        return False


def where(f, hdr):
    ls = [i for i in f.insts() if hdr in i.where()]
    return ls[-1].where() if ls else f.file


def cells(fo, p, root, n, sz=8):
    return [fo.load(p, root, k * sz, sz, 'double') for k in range(n)]


def truth_of(c, relation):
    """value of a boolean given the relation (-1, 0, 1) between component pairs"""
    if isinstance(c, R):
        k = c.const()
        if k is None:
            raise Undecided('condition')
        return bool(k)
    if c[0] == 'not':
        return not truth_of(c[1], relation)
    if c[0] == 'and':
        return truth_of(c[1], relation) and truth_of(c[2], relation)
    if c[0] == 'or':
        return truth_of(c[1], relation) or truth_of(c[2], relation)
    if c[0] == 'bool':
        return truth_of(c[1], relation)
    if c[0] != 'cmp' or not isinstance(c[2], R) or not isinstance(c[3], R):
        raise Undecided('condition')
    r = relation(c[2], c[3])
    return {'eq': r == 0, 'ne': r != 0, 'lt': r < 0, 'le': r <= 0, 'gt': r > 0, 'ge': r >= 0}[c[1]]


def compare(ctx, f, paths, n, offs, less, what, hdr):
    """all order relations between the components"""
    A = [var('ld', 'a0', o).key() for o in offs]
    B = [var('ld', 'a1', o).key() for o in offs]
    cases = 0
    for rels in product((-1, 0, 1), repeat=n):
        if n > 6 and sum(1 for x in rels if x) > 2:
            continue

        def relation(x, y):
            for k in range(n):
                if x.key() == A[k] and y.key() == B[k]:
                    return rels[k]
                if x.key() == B[k] and y.key() == A[k]:
                    return -rels[k]
            if x.same(y):
                return 0
            for k in range(n):
                for X, Y, s in ((A[k], B[k], 1), (B[k], A[k], -1)):
                    # other pairs of components are unrelated: a comparison of them is wrong
                    pass
            raise Mixed(x, y)
        want = next((x for x in rels if x), 0)
        want = want < 0 if less else not any(rels)
        hit = 0
        cases += 1
        try:
            for p in paths:
                if all(truth_of(c, relation) == v for c, v in p.conds):
                    hit += 1
                    got = truth_of(p.ret, relation)
                    if got != want:
                        ctx.bad('compare', f, where(f, hdr), '%s is %s although %s' % (
                            what, str(got).lower(), ', '.join('component %d is %s' % (k, {-1: 'smaller', 0: 'equal', 1: 'larger'}[x]) for k, x in enumerate(rels))))
                        return cases
        except Mixed as e:
            ctx.bad('compare', f, where(f, hdr), '%s compares %s with %s' % (what, e.args[0], e.args[1]))
            return cases
        if hit != 1:
            raise Undecided('comparison paths')
    return cases


class Mixed(Exception):
    pass


def expected(op, n):
    a = [var('ld', 'a0', 8 * k) for k in range(n)]
    b = [var('ld', 'a1', 8 * k) for k in range(n)]
    c = [var('ld', 'a2', 8 * k) for k in range(n)]
    m0, m1, m2 = var('ld', 'a0', 0), var('ld', 'a1', 0), var('ld', 'a2', 0)

    def dot(x, y):
        s = num(0)
        for p, q in zip(x, y):
            s = s + p * q
        return s

    def length(x):
        return var('sqrt', dot(x, x).key())
    # (where the result is, components)
    if op == 'zero':
        return 'a0', [num(0)] * n
    if op == 'make':
        return 'a0', [var('arg', 'a%d' % (k + 1)) for k in range(n)]
    if op == 'from':
        return 'a0', b
    if op == 'to':
        return 'a1', a
    if op == 'add':
        return 'a0', [x + y for x, y in zip(b, c)]
    if op == 'sub':
        return 'a0', [x - y for x, y in zip(b, c)]
    if op == 'neg':
        return 'a0', [-x for x in b]
    if op == 'lmul':
        return 'a0', [m1 * x for x in c]
    if op == 'rmul':
        return 'a0', [x * m2 for x in b]
    if op == 'div':
        return 'a0', [x / m2 for x in b]
    if op == 'addeq':
        return 'a0', [x + y for x, y in zip(a, b)]
    if op == 'subeq':
        return 'a0', [x - y for x, y in zip(a, b)]
    if op == 'muleq':
        return 'a0', [x * m1 for x in a]
    if op == 'diveq':
        return 'a0', [x / m1 for x in a]
    if op == 'addself':
        return 'a0', [x + x for x in a]
    if op == 'subself':
        return 'a0', [num(0)] * n
    if op == 'mulown':
        return 'a0', [x * m0 for x in a]
    if op == 'divown':
        return 'a0', [x / m0 for x in a]
    if op in ('unit', 'munit'):
        return 'a0', [x / length(b) for x in b]
    if op in ('scaled', 'mscaled'):
        return 'a0', [var('arg', 'a2') * x / length(b) for x in b]
    if op == 'cross' and n == 3:
        return 'a0', [b[1] * c[2] - b[2] * c[1], b[2] * c[0] - b[0] * c[2], b[0] * c[1] - b[1] * c[0]]
    if op == 'cross':
        return 'ret', [a[0] * b[1] - a[1] * b[0]]
    if op == 'dot':
        return 'ret', [dot(a, b)]
    if op == 'norm':
        return 'ret', [dot(a, a)]
    if op == 'abs':
        return 'ret', [length(a)]
    if op == 'proj':
        return 'ret', [dot(a, b) / dot(b, b)]
    return None


def one(ctx, prog, f, ns, n, op):
    what = '%s of %s::vector%d' % (OPS.get(op, op), ns, n)
    fo = Vec(prog, f)
    ps = fo.run()
    if op in ('eq', 'lt'):
        ctx.ob('%s for %d order relations of the components' % (what, compare(ctx, f, ps, n, [8 * k for k in range(n)], op == 'lt', what, 'vector.h')), f.short)
        return
    if any(c for p in ps for c, v in p.conds) or len(ps) != 1:
        # a guard (for zero length, say) is judged on every path that computes
        raise Undecided('conditional result')
    p = ps[0]
    ctx.ob(what, f.short)
    if op.startswith('at'):
        k = int(op[2:])
        if p.ret != ('P', 'a0', 8 * k):
            ctx.bad('index', f, where(f, 'vector.h'), 'index %d of %s::vector%d names component %s' % (k, ns, n, p.ret[2] // 8 if isinstance(p.ret, tuple) and p.ret[1] == 'a0' else '?'))
        return
    if op == 'write':
        o = [e for e in p.ev if e[0] in ('out', 'text')]
        got = [e[1] for e in o if e[0] == 'out']
        want = [var('ld', 'a1', 8 * k) for k in range(n)]
        if len(got) != n or not all(isinstance(x, R) and x.same(y) for x, y in zip(got, want)):
            ctx.bad('stream', f, where(f, 'vector.h'), '%s writes %s' % (what, got))
        elif any(a[0] == 'out' and b[0] == 'out' for a, b in zip(o, o[1:])):
            ctx.bad('stream', f, where(f, 'vector.h'), '%s writes two components without anything between them' % what)
        return
    if op == 'read':
        root, want = 'a1', [var('in', k) for k in range(n)]
    else:
        e = expected(op, n)
        if e is None:
            raise Undecided('operation %s' % op)
        root, want = e
    got = [p.ret] if root == 'ret' else cells(fo, p, root, n)
    for k, (x, y) in enumerate(zip(got, want)):
        if not isinstance(x, R):
            raise Undecided('result')
        if not x.same(y):
            ctx.bad('formula', f, where(f, 'vector.h'), '%s: component %d is %s instead of %s' % (what, k, x, y) if root != 'ret' else '%s is %s instead of %s' % (what, x, y))
            return


def check(ctx):
    prog = ctx.prog('math')
    ctx.counts['undecided'] = 0
    n = 0
    for f in prog.funcs:
        m = re.match(r'^(?:[\w:<>& ]+ )?driver_math::([na])(\d+)_(\w+)\(', f.dem or '')
        if not m:
            continue
        n += 1
        ns = 'component_by_name' if m.group(1) == 'n' else 'component_by_array'
        try:
            one(ctx, prog, f, ns, int(m.group(2)), m.group(3))
        except Undecided as e:
            ctx.counts['undecided'] += 1
            ctx.samples.append('undecided %s: %s' % (f.short, e))
            ctx.ob('attempted', f.short)
    ctx.need('operations', n, 300)

"""Value numbering with algebraic normal forms: what a function computes, as rational functions of its inputs.

Every acyclic stretch of the control-flow graph (loops with constant trip counts included) is evaluated over the field of
rational functions whose indeterminates are the initial contents of memory, the arguments and the results of calls. Two results
are the same if their cross products have the same polynomial normal form; nothing is sampled, and no solver is involved."""
from fractions import Fraction
from pfa import *


class Undecided(Exception):
    pass


ONE = ((),)


def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


def patom(a):
    return {((a, 1),): Fraction(1)}


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda x: repr(x[0])))


def pmul(p, q):
    if len(p) * len(q) > 20000:
        raise Undecided('formula too large')
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pkey(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=repr))


class R:
    """a rational function"""
    __slots__ = ('n', 'd', '_k')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else {(): Fraction(1)}
        self._k = None
        if not self.n:
            self.d = {(): Fraction(1)}
        elif len(self.d) == 1:
            # divide by a monomial where possible
            (m, c), = self.d.items()
            if c != 1:
                self.n = dict((k, v / c) for k, v in self.n.items())
                self.d = {m: Fraction(1)}
            if m:
                com = dict(m)
                for k in self.n:
                    dk = dict(k)
                    com = dict((a, min(e, dk.get(a, 0))) for a, e in com.items())
                    com = dict((a, e) for a, e in com.items() if e > 0)
                    if not com:
                        break
                if com:
                    def strip(k):
                        d = dict(k)
                        for a, e in com.items():
                            d[a] -= e
                        return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: repr(x[0])))
                    self.n = dict((strip(k), v) for k, v in self.n.items())
                    self.d = {strip(m): Fraction(1)}

    def const(self):
        if not self.n:
            return Fraction(0)
        if len(self.n) == 1 and () in self.n and len(self.d) == 1 and () in self.d:
            return self.n[()] / self.d[()]
        return None

    def atom(self):
        """the single indeterminate this is, if it is one"""
        if len(self.n) == 1 and self.d == {(): 1}:
            (m, c), = self.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def key(self):
        if self._k is None:
            # make the leading coefficient of the denominator 1
            m = min(self.d, key=repr)
            c = self.d[m]
            self._k = (pkey(dict((a, b / c) for a, b in self.n.items())), pkey(dict((a, b / c) for a, b in self.d.items())))
        return self._k

    def __add__(self, o):
        if self.d == o.d:
            return R(padd(self.n, o.n), self.d)
        return R(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __sub__(self, o):
        return self + (o * num(-1))

    def __neg__(self):
        return self * num(-1)

    def __mul__(self, o):
        return R(pmul(self.n, o.n), pmul(self.d, o.d))

    def __truediv__(self, o):
        if not o.n:
            raise Undecided('division by zero')
        return R(pmul(self.n, o.d), pmul(self.d, o.n))

    def same(self, o):
        return pmul(self.n, o.d) == pmul(o.n, self.d)

    def close(self, o, tol=1e-12):
        a, b = pmul(self.n, o.d), pmul(o.n, self.d)
        if set(a) != set(b):
            return False
        return all(abs(a[k] - b[k]) <= tol * max(abs(a[k]), abs(b[k])) for k in a)

    def atoms(self):
        return set(a for p in (self.n, self.d) for m in p for a, e in m)

    def __repr__(self):
        def pol(p):
            o = []
            for m, c in sorted(p.items(), key=repr):
                t = '*'.join('%s%s' % (name(a), '^%d' % e if e > 1 else '') for a, e in m)
                o.append(('%s*%s' % (c, t) if c != 1 else t) if t else str(c))
            return ' + '.join(o) or '0'
        return pol(self.n) if self.d == {(): 1} else '(%s)/(%s)' % (pol(self.n), pol(self.d))


def name(a):
    if isinstance(a, tuple):
        if a[0] == 'ld':
            return '%s[%s]' % (a[1], a[2])
        if a[0] == 'arg':
            return a[1]
        return '%s(%s)' % (a[0], ', '.join(map(name, a[1:])))
    return str(a)


def num(c):
    return R(pconst(c))


def var(*a):
    return R(patom(a))


class Path:
    def __init__(self):
        self.env, self.log, self.conds, self.ev = {}, [], [], []
        self.end = self.ret = self.stop = None
        self.fresh = 0
        self.base = None

    def copy(self):
        p = Path()
        p.env, p.log, p.conds, p.ev = dict(self.env), list(self.log), list(self.conds), list(self.ev)
        p.fresh, p.base = self.fresh, self.base
        return p


SZ = {'double': 8, 'float': 4, 'ptr': 8, 'i64': 8, 'i32': 4, 'i16': 2, 'i8': 1, 'i1': 1, 'x86_fp80': 16}
NEG = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}


def rel(p):
    """order predicate without signedness or orderedness"""
    if p in ('eq', 'ne'):
        return p
    return {'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne'}.get(p) or p[1:]


class Formula:
    BUDGET = 60000
    divmod = False      # a % b as a - b*(a/b)
    MAXPATHS = 4000

    def __init__(self, prog, f, cuts=()):
        self.prog, self.f, self.cuts = prog, f, set(cuts)
        self.steps = 0
        self.defs = {}

    # --- to be refined by users
    def call(self, p, i, n, a):
        """handle a call: set p.env[i.id]; return True if handled"""
        return False

    def exact(self, x, y):
        """is the integer division x/y exact?"""
        return False

    # --- evaluation
    def val(self, p, v):
        if v in p.env:
            return p.env[v]
        if isinstance(v, str):
            if v.startswith('c:'):
                return num(int(v[2:]))
            if v.startswith('f:'):
                try:
                    return num(Fraction(float(v[2:])))
                except ValueError:
                    raise Undecided('constant %s' % v)
            if v in ('null',):
                return ('P', 'null', 0)
            if v in ('undef', 'poison'):
                return ('U',)
            if v.startswith('g:'):
                return ('P', v, 0)
            m = re.match(r'^a(\d+)$', v)
            if m:
                t = self.f.d['args'][int(m.group(1))]['t']
                return ('P', v, 0) if t == 'ptr' else var('arg', v)
        d = self.f.defs.get(v)
        if d is not None and d.op == 'alloca':
            return ('P', v, 0)
        raise Undecided('value %s' % v)

    def size(self, t):
        if t in SZ:
            return SZ[t]
        m = re.match(r'^i(\d+)$', t or '')
        if m:
            return (int(m.group(1)) + 7) // 8
        raise Undecided('type %s' % t)

    def load(self, p, root, off, sz, ty, upto=None):
        for k in range((len(p.log) if upto is None else upto) - 1, -1, -1):
            e = p.log[k]
            if e[0] == 'any':
                if e[1] == root:
                    return var('mem', e[2], root, off)
                continue
            if e[1] != root or off + sz <= e[2] or e[2] + e[3] <= off:
                continue
            if e[0] == 'st':
                if e[2] == off and e[3] == sz:
                    return e[4]
                raise Undecided('partial access')
            if not (e[2] <= off and off + sz <= e[2] + e[3]):
                raise Undecided('partial access')
            if e[0] == 'set':
                if e[4] == 0:
                    return num(0) if ty != 'ptr' else ('P', 'null', 0)
                raise Undecided('memset')
            if e[0] == 'cp':
                return self.load(p, e[4], e[5] + off - e[2], sz, ty, k)
        if ty == 'ptr':
            return ('P', ('*', root, off), 0)
        d = self.f.defs.get(root) if isinstance(root, str) else None
        if d is not None and d.op == 'alloca':
            return var('undef', root, off)
        return self.initial(p, root, off, sz, ty)

    def initial(self, p, root, off, sz, ty):
        return var('ld', root, off)

    def ptr(self, v):
        if isinstance(v, tuple) and v and v[0] == 'P':
            return v[1], v[2]
        raise Undecided('pointer')

    def store(self, p, v, x, sz):
        r, o = self.ptr(v)
        p.log.append(('st', r, o, sz, x))

    def truth(self, p, c):
        """True/False/None for a condition on this path"""
        if isinstance(c, R):
            k = c.const()
            return None if k is None else bool(k)
        if c[0] == 'not':
            t = self.truth(p, c[1])
            return None if t is None else not t
        if c[0] in ('and', 'or'):
            a, b = self.truth(p, c[1]), self.truth(p, c[2])
            if c[0] == 'and':
                return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        if c[0] == 'cmp':
            if isinstance(c[2], R) and isinstance(c[3], R):
                k = (c[2] - c[3]).const()
                if k is not None:
                    return {'eq': k == 0, 'ne': k != 0, 'lt': k < 0, 'le': k <= 0, 'gt': k > 0, 'ge': k >= 0}[c[1]]
            for q, val in p.conds:
                if q[0] == 'cmp' and ckey(q) == ckey(c):
                    return val if q[1] == c[1] else (not val if NEG[q[1]] == c[1] else None)
        return None

    def run(self, start=0, p=None):
        out = []
        work = [(start, None, p or Path(), True)]
        while work:
            b, prev, p, first = work.pop()
            self.steps += 1
            if self.steps > self.BUDGET or len(out) > self.MAXPATHS:
                raise Undecided('too many paths')
            if b in self.cuts and not first:
                p.end = ('cut', b)
                p.prev = prev
                p.phis = {}
                for i in self.f.blocks[b]:
                    if i.op != 'phi':
                        break
                    p.phis[i.id] = self.val(p, i.ops[i.d['in'].index(prev)])
                out.append(p)
                continue
            blk = self.f.blocks[b]
            ph = []
            for i in blk:
                if i.op != 'phi':
                    break
                if first:
                    continue
                ph.append((i.id, self.val(p, i.ops[i.d['in'].index(prev)])))
            for k, v in ph:
                p.env[k] = v
            states = [p]
            for i in blk:
                if i.op == 'phi':
                    continue
                if i is blk[-1]:
                    break
                nxt = []
                for q in states:
                    r = self.inst(q, i)
                    nxt.extend([q] if r is None else r)
                states = nxt
            for q in states:
                self.term(q, b, blk[-1], work, out)
        return out

    def inst(self, p, i):
        op, o = i.op, i.ops
        V = lambda k: self.val(p, o[k])
        if op in ('add', 'fadd', 'sub', 'fsub', 'mul', 'fmul', 'fdiv', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = V(0), V(1)
            if not isinstance(a, R) or not isinstance(b, R):
                if op in ('and', 'or', 'xor') and i.ty == 'i1':
                    if op == 'xor':
                        k = b.const() if isinstance(b, R) else None
                        if k is None:
                            raise Undecided('xor')
                        p.env[i.id] = ('not', a) if k else a
                    else:
                        p.env[i.id] = (op, a, b)
                    return
                raise Undecided('operand of %s' % op)
            if op in ('add', 'fadd'):
                r = a + b
            elif op in ('sub', 'fsub'):
                r = a - b
            elif op in ('mul', 'fmul'):
                r = a * b
            elif op == 'fdiv':
                r = a / b
            elif op in ('sdiv', 'udiv'):
                r = a / b if self.exact(a, b) else var(op, a.key(), b.key())
                if r.atom() and r.atom()[0] == op:
                    self.remember(r, op, a, b)
            elif op in ('srem', 'urem'):
                if self.divmod:
                    q = var(op[0] + 'div', a.key(), b.key())
                    self.remember(q, op[0] + 'div', a, b)
                    r = a - b * q
                else:
                    r = num(0) if self.exact(a, b) else var(op, a.key(), b.key())
                    if r.n:
                        self.remember(r, op, a, b)
            else:
                r = self.bits(p, i, op, a, b)
            p.env[i.id] = r
        elif op == 'fneg':
            p.env[i.id] = -V(0)
        elif op in ('icmp', 'fcmp'):
            p.env[i.id] = ('cmp', rel(i.d['p']), V(0), V(1))
        elif op == 'select':
            c = V(0)
            t = self.truth(p, c)
            if t is None:
                a, b = V(1), V(2)
                if isinstance(a, R) and isinstance(b, R) and a.same(b):
                    p.env[i.id] = a
                else:
                    q = p.copy()
                    self.addcond(p, c, True)
                    self.addcond(q, c, False)
                    p.env[i.id], q.env[i.id] = a, b
                    return [p, q]
            else:
                p.env[i.id] = V(1) if t else V(2)
        elif op in ('zext', 'sext', 'trunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            p.env[i.id] = self.cast(p, i, op, V(0))
        elif op == 'getelementptr':
            r, off = self.ptr(V(0))
            off += i.d.get('off', 0)
            for v, sc in i.d.get('var', []):
                k = self.val(p, v)
                k = k.const() if isinstance(k, R) else None
                if k is None:
                    raise Undecided('computed index')
                off += int(k) * sc
            p.env[i.id] = ('P', r, off)
        elif op == 'load':
            r, off = self.ptr(V(0))
            p.env[i.id] = self.load(p, r, off, self.size(i.ty), i.ty)
        elif op == 'store':
            self.store(p, V(1), V(0), self.size(i.d.get('vt')))
            p.ev.append(('store', i))
        elif op == 'alloca':
            p.env[i.id] = ('P', i.id, 0)
        elif op == 'insertvalue':
            a = V(0)
            d = dict(a[1]) if a[0] == 'A' else {}
            d[tuple(i.d['ix'])] = V(1)
            p.env[i.id] = ('A', tuple(d.items()))
        elif op == 'extractvalue':
            a = V(0)
            d = dict(a[1]) if a[0] == 'A' else {}
            if tuple(i.d['ix']) not in d:
                raise Undecided('aggregate')
            p.env[i.id] = d[tuple(i.d['ix'])]
        elif i.iscall:
            self.docall(p, i)
        elif op in ('fence',):
            pass
        else:
            raise Undecided('instruction %s' % op)

    def remember(self, r, op, a, b):
        self.defs[r.atom()] = (op, a, b)

    def bits(self, p, i, op, a, b):
        k, m = a.const(), b.const()
        if m is not None and op == 'shl':
            return a * num(1 << int(m))
        if k is not None and m is not None:
            k, m = int(k), int(m)
            return num({'and': k & m, 'or': k | m, 'xor': k ^ m, 'shl': k << m if m < 64 else 0, 'lshr': k >> m, 'ashr': k >> m}[op])
        r = var(op, a.key(), b.key())
        self.remember(r, op, a, b)
        return r

    def cast(self, p, i, op, a):
        if op in ('bitcast', 'freeze'):
            return a
        if isinstance(a, tuple) and a[0] in ('cmp', 'and', 'or', 'not') and op in ('zext', 'trunc'):
            return a
        if isinstance(a, R):
            k = a.const()
            if k is not None and op in ('zext', 'sext', 'uitofp', 'sitofp', 'fpext'):
                if op == 'zext' and k < 0:
                    w = int(i.d['st'][1:])
                    return num(int(k) & ((1 << w) - 1))
                return a
            if op in ('sitofp', 'fpext', 'sext', 'uitofp', 'zext'):
                return a
            if op == 'trunc':
                r = var('trunc', i.ty, a.key())
                self.remember(r, op, a, None)
                return r
            r = var(op, a.key())
            self.remember(r, op, a, None)
            return r
        raise Undecided('cast')

    def docall(self, p, i):
        n = i.callee or ''
        a = []
        for o in i.ops:
            try:
                a.append(self.val(p, o))
            except Undecided:
                a.append(None)
        if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.experimental.noalias') or n in ('llvm.assume', 'llvm.donothing'):
            return
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            k = a[2].const()
            if k is None:
                raise Undecided('copy')
            (r, o), (s, q) = self.ptr(a[0]), self.ptr(a[1])
            p.log.append(('cp', r, o, int(k), s, q))
            return
        if n.startswith('llvm.memset'):
            k, c = a[2].const(), a[1].const()
            if k is None or c is None:
                raise Undecided('memset')
            r, o = self.ptr(a[0])
            p.log.append(('set', r, o, int(k), int(c)))
            return
        if self.call(p, i, n, a):
            return
        if n in ('sqrt', 'sqrtf', 'sqrtl') or n.startswith('llvm.sqrt'):
            p.env[i.id] = var('sqrt', a[0].key())
            return
        if n.startswith('llvm.abs'):
            p.env[i.id] = var('abs', a[0].key())
            self.remember(p.env[i.id], 'abs', a[0], None)
            return
        if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma') or n == 'fma':
            p.env[i.id] = a[0] * a[1] + a[2]
            return
        raise Undecided('call of %s' % (i.dem or n or 'a pointer')[:80])

    def term(self, p, b, t, work, out):
        if t.op == 'br':
            if not t.ops:
                work.append((t.d['succ'][0], b, p, False))
                return
            c = self.val(p, t.ops[0])
            self.branch(p, c, [(True, t.d['succ'][0]), (False, t.d['succ'][1])], b, work)
        elif t.op == 'switch':
            v = self.val(p, t.ops[0])
            k = v.const() if isinstance(v, R) else None
            if k is not None:
                to = dict((int(x), y) for x, y in t.d['cases']).get(int(k), t.d['def'])
                work.append((to, b, p, False))
                return
            for x, y in t.d['cases']:
                q = p.copy()
                q.conds.append((('cmp', 'eq', v, num(int(x))), True))
                work.append((y, b, q, False))
            for x, y in t.d['cases']:
                p.conds.append((('cmp', 'eq', v, num(int(x))), False))
            work.append((t.d['def'], b, p, False))
        elif t.op == 'invoke':
            self.docall(p, t)
            work.append((t.d['normal'], b, p, False))
        elif t.op == 'ret':
            p.end = 'ret'
            p.ret = self.val(p, t.ops[0]) if t.ops else None
            out.append(p)
        elif t.op == 'unreachable':
            p.end = 'unreachable'
        else:
            p.end = t.op
            out.append(p)

    def branch(self, p, c, targets, b, work):
        t = self.truth(p, c)
        if t is None and isinstance(c, tuple) and c[0] in ('and', 'or', 'not'):
            # decompose
            if c[0] == 'not':
                return self.branch(p, c[1], [(not v, s) for v, s in targets], b, work)
            for v1 in (True, False):
                t1 = self.truth(p, c[1])
                if t1 is not None and t1 != v1:
                    continue
                q = p.copy()
                if t1 is None:
                    self.addcond(q, c[1], v1)
                if (c[0] == 'and') != v1:
                    work.append((dict(targets)[v1], b, q, False))
                else:
                    self.branch(q, c[2], targets, b, work)
            return
        for v, s in targets:
            if t is not None and t != v:
                continue
            q = p.copy()
            if t is None:
                self.addcond(q, c, v)
            work.append((s, b, q, False))

    def addcond(self, p, c, v):
        while isinstance(c, tuple) and c[0] == 'not':
            c, v = c[1], not v
        p.conds.append((c if isinstance(c, tuple) else ('bool', c), v))


def ckey(c):
    def k(x):
        return x.key() if isinstance(x, R) else x
    return (k(c[2]), k(c[3]))

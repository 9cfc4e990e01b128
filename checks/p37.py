"""Message digest: md5sum is MD5 (RFC 1321) of the bytes given."""
import math
import os
import random
from formula import *

RULE = ('value numbering of machine words: additions are kept as polynomials modulo 2^32, bitwise functions as truth tables over their operands, rotations as such. One pass of the block '
        'loop, starting from any state and any 16 words, is compared with the 64 steps of RFC 1321; the table, the initial state, the padding of the last blocks (for every number of '
        'bytes left, from none to more than a block) and the length words, the order of the digest and its printed form are compared in the same way. Words that are not identical as '
        'normal forms are a violation only if the two terms differ on some assignment of their variables')
ASSUME = ['the byte iterators behave as iterators of the standard library; sin() of the C library is exact enough for the table (as RFC 1321 itself assumes)']

IV = (0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476)
TAB = [int(4294967296.0 * abs(math.sin(i))) for i in range(65)]
SHIFT = ((7, 12, 17, 22), (5, 9, 14, 20), (4, 11, 16, 23), (6, 10, 15, 21))


class Terms:
    """hash-consed terms"""

    def __init__(self):
        self.tab, self.defs = {}, []
        self.conds = []

    def t(self, op, *args):
        k = (op,) + tuple(a.key() if isinstance(a, R) else a for a in args)
        if k not in self.tab:
            self.tab[k] = len(self.defs)
            self.defs.append((op, args))
        return var('t', self.tab[k])

    def dfn(self, r):
        a = r.atom() if isinstance(r, R) else None
        return self.defs[a[1]] if a and a[0] == 't' else None

    def norm(self, r, w):
        if r.d != {(): 1}:
            raise Undecided('division')
        n = {}
        for m, c in r.n.items():
            if c != int(c):
                return r
            c = int(c) % (1 << w)
            if c:
                n[m] = c
        return R(n)

    def mask(self, r, w):
        """the bits that may be set, or None"""
        tot = 0
        for m, c in r.n.items():
            if not m:
                b = int(c) % (1 << w)
            elif len(m) == 1 and m[0][1] == 1 and int(c) & (int(c) - 1) == 0:
                a = m[0][0]
                if a[0] == 'byte':
                    v = 0xff
                elif a[0] == 't' and self.defs[a[1]][0] == 'lshr' and self.defs[a[1]][1][2] == w:
                    v = (1 << (w - self.defs[a[1]][1][1])) - 1
                else:
                    return None
                b = v * int(c)
                if b >> w:
                    return None
            else:
                return None
            if tot & b:
                return None
            tot |= b
        return tot

    def shl(self, x, k, w):
        return self.norm(x * num(1 << k), w)

    def lshr(self, x, k, w):
        if k == 0:
            return x
        c = x.const()
        if c is not None:
            return num((int(c) % (1 << w)) >> k)
        d = self.dfn(x)
        if d and d[0] == 'lshr' and d[1][2] == w:
            return self.lshr(d[1][0], d[1][1] + k, w)
        return self.t('lshr', x, k, w)

    def rotparts(self, a, b, w):
        for x, y in ((a, b), (b, a)):
            d = self.dfn(x)
            if d and d[0] == 'lshr' and d[1][2] == w and self.shl(d[1][0], w - d[1][1], w).same(y):
                return self.t('rot', d[1][0], w - d[1][1], w)
        return None

    def add(self, a, b, w):
        return self.rotparts(a, b, w) or self.norm(a + b, w)

    def table(self, x, w):
        d = self.dfn(x)
        if d and d[0] == 'bw' and d[1][2] == w:
            return d[1][0], d[1][1]
        c = x.const()
        if c is not None and int(c) % (1 << w) == 0:
            return (), 0
        if c is not None and int(c) % (1 << w) == (1 << w) - 1:
            return (), 1
        return (x,), 2

    def bw(self, op, a, b, w):
        x, y = a.const(), b.const()
        if x is not None and y is not None:
            x, y = int(x) % (1 << w), int(y) % (1 << w)
            return num({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
        if op == 'and':
            for c, o in ((x, b), (y, a)):
                if c is not None and self.mask(o, w) is not None and not self.mask(o, w) & ~int(c) % (1 << w):
                    return o
        if op in ('or', 'xor'):
            r = self.rotparts(a, b, w)
            if r is not None:
                return r
            ma, mb = self.mask(a, w), self.mask(b, w)
            if ma is not None and mb is not None and not ma & mb:
                return self.norm(a + b, w)
        (la, ta), (lb, tb) = self.table(a, w), self.table(b, w)
        lv = {}
        for l in la + lb:
            lv[l.key()] = l
        ks = sorted(lv, key=repr)
        if len(ks) > 6:
            return self.t(op, a, b, w)

        def at(ls, t, asg):
            k = 0
            for n, l in enumerate(ls):
                k |= asg[l.key()] << n
            return t >> k & 1
        t = 0
        for k in range(1 << len(ks)):
            asg = {q: k >> n & 1 for n, q in enumerate(ks)}
            u, v = at(la, ta, asg), at(lb, tb, asg)
            t |= {'and': u & v, 'or': u | v, 'xor': u ^ v}[op] << k
        # drop operands that do not matter
        n = 0
        while n < len(ks):
            lo = [k for k in range(1 << len(ks)) if not k >> n & 1]
            if all((t >> k & 1) == (t >> (k | 1 << n) & 1) for k in lo):
                t2 = 0
                for j, k in enumerate(lo):
                    t2 |= (t >> k & 1) << j
                t = t2
                ks.pop(n)
            else:
                n += 1
        if not ks:
            return num((1 << w) - 1 if t else 0)
        if len(ks) == 1 and t == 2:
            return lv[ks[0]]
        return self.bwterm(tuple(lv[k] for k in ks), t, w)

    def bwterm(self, ls, t, w):
        k = ('bw', tuple(l.key() for l in ls), t, w)
        if k not in self.tab:
            self.tab[k] = len(self.defs)
            self.defs.append(('bw', (ls, t, w)))
        return var('t', self.tab[k])

    # --- evaluation of a term under an assignment
    def ev(self, r, asg, w, memo):
        tot = 0
        for m, c in r.n.items():
            if c != int(c):
                raise Undecided('fraction')
            x = int(c)
            for a, e in m:
                x = x * self.atom(a, asg, memo) ** e
            tot += x
        return tot % (1 << w)

    def atom(self, a, asg, memo):
        if a in memo:
            return memo[a]
        if a[0] != 't':
            if a not in asg:
                if asg[None] < 0:
                    asg[a] = {-1: 0, -2: (1 << 64) - 1, -3: 1, -4: 128}[asg[None]] & (0xff if a[0] == 'byte' else (1 << 64) - 1 if a[0] == 'cnt' else 0xffffffff)
                else:
                    asg[a] = random.Random(repr((a, asg[None]))).getrandbits(8 if a[0] == 'byte' else 64 if a[0] == 'cnt' else 32)
            v = asg[a]
        else:
            op, g = self.defs[a[1]]
            if op == 'bw':
                ls, t, w = g
                vs = [self.ev(l, asg, w, memo) for l in ls]
                v = 0
                for bit in range(w):
                    k = 0
                    for n, x in enumerate(vs):
                        k |= (x >> bit & 1) << n
                    v |= (t >> k & 1) << bit
            elif op == 'lshr':
                v = self.ev(g[0], asg, g[2], memo) >> g[1]
            elif op == 'rot':
                x = self.ev(g[0], asg, g[2], memo)
                v = ((x << g[1]) | (x >> (g[2] - g[1]))) & ((1 << g[2]) - 1)
            elif op in ('and', 'or', 'xor'):
                x, y = self.ev(g[0], asg, g[2], memo), self.ev(g[1], asg, g[2], memo)
                v = x & y if op == 'and' else x | y if op == 'or' else x ^ y
            elif op == 'sext':
                x = self.ev(g[0], asg, g[1], memo)
                v = (x - (1 << g[1]) if x >> (g[1] - 1) else x) % (1 << g[2])
            elif op == 'zext':
                v = self.ev(g[0], asg, g[1], memo)
            else:
                raise Undecided('value of %s' % op)
        memo[a] = v
        return v

    def holds(self, asg, memo):
        for c, v in self.conds:
            if c[0] != 'cmp' or not isinstance(c[2], R) or not isinstance(c[3], R):
                raise Undecided('condition')
            x, y = self.ev(c[2], asg, 64, memo), self.ev(c[3], asg, 64, memo)
            if x >> 63 or y >> 63:
                raise Undecided('condition')
            if {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[c[1]] != v:
                return False
        return True

    def differ(self, x, y, w):
        """True: they differ somewhere; False: identical; None: not known"""
        if self.norm(x, w).same(self.norm(y, w)):
            return False
        for seed in range(-4, 24):
            asg, memo = {None: seed}, {}
            if not self.holds(asg, memo):
                continue
            if self.ev(x, asg, w, memo) != self.ev(y, asg, w, memo):
                return True
        return None


class Word(Formula):
    BUDGET = 20000

    def __init__(self, prog, f, terms, cuts=()):
        Formula.__init__(self, prog, f, cuts)
        self.T = terms

    def val(self, p, v):
        if isinstance(v, str) and v not in p.env:
            m = re.match(r'^ce:(-?\d+):(g:.*)$', v)
            if m:
                return ('P', m.group(2), int(m.group(1)))
            if v.startswith('k:') or v == 'zero':
                return ('C', v)
        return Formula.val(self, p, v)

    def width(self, t):
        m = re.match(r'^i(\d+)$', t or '')
        return int(m.group(1)) if m else None

    def inst(self, p, i):
        self.at = i
        w = self.width(i.ty)
        if w and w > 1 and i.op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            a, b = self.val(p, i.ops[0]), self.val(p, i.ops[1])
            if isinstance(a, R) and isinstance(b, R):
                T = self.T
                if i.op == 'add':
                    r = T.add(T.norm(a, w), T.norm(b, w), w)
                elif i.op == 'sub':
                    r = T.norm(a - b, w)
                elif i.op == 'mul':
                    r = T.norm(a * b, w)
                elif i.op in ('shl', 'lshr'):
                    k = b.const()
                    if k is None:
                        raise Undecided('shift')
                    r = (T.shl if i.op == 'shl' else T.lshr)(T.norm(a, w), int(k), w)
                else:
                    r = T.bw(i.op, T.norm(a, w), T.norm(b, w), w)
                p.env[i.id] = r
                return
        if i.op == 'xor' and w == 1 and i.ops[1] in ('c:1', 'c:-1'):
            p.env[i.id] = ('not', self.val(p, i.ops[0]))
            return
        if i.op in ('zext', 'sext', 'trunc'):
            a = self.val(p, i.ops[0])
            if isinstance(a, R) and w:
                sw = self.width(i.d.get('st'))
                p.env[i.id] = self.conv(i.op, a, sw, w)
                return
        if i.op in ('icmp',):
            a, b = self.val(p, i.ops[0]), self.val(p, i.ops[1])
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'P' and a[1] == b[1]:
                q = rel(i.d['p'])
                x, y = a[2], b[2]
                p.env[i.id] = num(int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[q]))
                return
            sw = self.width(i.d.get('st'))
            if sw and isinstance(a, R) and isinstance(b, R) and a.const() is not None and b.const() is not None:
                x, y = int(a.const()) % (1 << sw), int(b.const()) % (1 << sw)
                if i.d['p'][0] == 's':
                    x, y = (v - (1 << sw) if v >> (sw - 1) else v for v in (x, y))
                q = rel(i.d['p'])
                p.env[i.id] = num(int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[q]))
                return
        if i.op == 'getelementptr' and i.d.get('var'):
            b = self.val(p, i.ops[0])
            ks = [(self.val(p, v), sc) for v, sc in i.d['var']]
            if isinstance(b, tuple) and b[0] == 'P' and len(ks) == 1 and isinstance(ks[0][0], R) and ks[0][0].const() is None:
                p.env[i.id] = ('P', ('elt', b[1], b[2] + i.d.get('off', 0), ks[0][0].key(), ks[0][1]), 0)
                self.index = ks[0][0]
                return
            for k, sc in ks:
                if isinstance(k, R) and k.const() is not None and int(k.const()) >> 63:
                    raise Undecided('index')
        return Formula.inst(self, p, i)

    def conv(self, op, a, sw, w):
        c = a.const()
        if c is not None:
            c = int(c) % (1 << (sw or 64))
            if op == 'sext' and c >> (sw - 1):
                c -= 1 << sw
            return num(c % (1 << w))
        if op == 'trunc':
            return self.T.norm(a, w) if w > 1 else a
        at = a.atom()
        if op == 'zext':
            if at and (at[0] == 'byte' or (at[0] == 't' and self.T.defs[at[1]][0] in ('bw', 'lshr', 'rot') and self.T.defs[at[1]][1][2] <= sw)):
                return a
            if at and sw == 32 and at[0] != 't' and at[0] != 'cnt':
                return a
            m = self.T.mask(a, sw)
            if m is not None:
                return a
            return self.T.t('zext', a, sw, w)
        if at and sw >= 32 and at[0] in ('i',):
            return a
        return self.T.t('sext', a, sw, w)

    def initial(self, p, root, off, sz, ty):
        if root == ('str',):
            return var('byte', off)
        if isinstance(root, str) and root.startswith('g:'):
            g = self.prog.globals.get(root[2:], {})
            for k in ('agg', 'init'):
                a = g.get(k)
                if isinstance(a, list) and a and not isinstance(a[0], list) and off % sz == 0 and off // sz < len(a):
                    e = a[off // sz]
                    if isinstance(e, str) and e.startswith('c:'):
                        return num(int(e[2:]) % (1 << 8 * sz))
                    if isinstance(e, int):
                        return num(e % (1 << 8 * sz))
            raise Undecided('constant table')
        return Formula.initial(self, p, root, off, sz, ty)

    def call(self, p, i, n, a):
        if n.startswith('llvm.fshl'):
            k = a[2].const()
            if k is not None and a[0].same(a[1]):
                p.env[i.id] = self.T.t('rot', self.T.norm(a[0], 32), int(k) % 32, 32)
                return True
        return False


def reference(T, st, x):
    """one block of RFC 1321"""
    a, b, c, d = st
    w = 32

    def NOT(v):
        return T.bw('xor', v, num(-1), w)
    for s in range(64):
        r = s // 16
        if r == 0:
            g = T.bw('or', T.bw('and', b, c, w), T.bw('and', NOT(b), d, w), w)
            k = s
        elif r == 1:
            g = T.bw('or', T.bw('and', b, d, w), T.bw('and', c, NOT(d), w), w)
            k = (5 * s + 1) % 16
        elif r == 2:
            g = T.bw('xor', T.bw('xor', b, c, w), d, w)
            k = (3 * s + 5) % 16
        else:
            g = T.bw('xor', c, T.bw('or', b, NOT(d), w), w)
            k = 7 * s % 16
        v = T.norm(a + g + x[k] + num(TAB[s + 1]), w)
        n = T.norm(b + T.t('rot', v, SHIFT[r][s % 4], w), w)
        a, b, c, d = d, n, b, c
    return [T.norm(p + q, w) for p, q in zip(st, (a, b, c, d))]


def check(ctx):
    prog = ctx.prog('digest')

    def fn(pat):
        fs = [f for f in prog.funcs if re.search(pat, f.dem or '')]
        return fs[0] if fs else None

    def attempt(label, what, job):
        ctx.ob('digest', label)
        ctx.count('cases')
        try:
            m = job()
            if m:
                ctx.bad('digest', what, what.d.get('file', label), '%s: %s' % (label, m))
        except Undecided as e:
            ctx.count('undecided')
            ctx.samples.append('undecided %s: %s' % (label, e))
            if os.environ.get('UND'):
                print('undecided %s: %s' % (label, e))

    def cmpw(T, x, y, what, w=32):
        if isinstance(x, tuple):
            raise Undecided(what)
        at = [a for m in x.n for a, e in m]
        if any(a[0] == 'undef' for a in at):
            return '%s is not initialised' % what
        d = T.differ(x, y, w)
        if d:
            return '%s is not what RFC 1321 says' % what
        if d is None:
            raise Undecided('%s: not identical, no difference found' % what)
        return None

    calc = fn(r'md5sum::calc\(')
    if calc is None:
        ctx.notes.append('md5sum::calc not found: block function not compared')
    else:
        attempt('block function', calc, lambda: blocks(ctx, prog, calc, cmpw))
    mk, fill, emp = fn(r'driver_digest::make\('), fn(r'driver_digest::fill\('), fn(r'driver_digest::empty\(')
    if not (mk and fill and emp):
        raise AnchorLost('driver_digest')
    lay = {}

    def layout(f, log, root, first, last):
        """members of the buffer, known by what the constructor puts there"""
        l = {}
        for e in log:
            if e[0] != 'st' or e[1] != root:
                continue
            v = e[4]
            c = v.const() if isinstance(v, R) else None
            if first(v):
                l['p'] = e[2]
            elif last(v):
                l['q'] = e[2]
            elif isinstance(v, tuple):
                continue
            elif e[3] == 1 and c is not None:
                if int(c) % 256 and 'ovr' not in l:
                    l['ovr'], l['pad'] = e[2], int(c) % 256
                elif int(c) % 256 == 0 and 'end' not in l:
                    l['end'] = e[2]
                else:
                    raise Undecided('members')
            elif e[3] in (4, 8) and c is not None and 'cnt' not in l:
                l['cnt'], l['cnt0'], l['cw'] = e[2], int(c), e[3]
            elif c is not None or not isinstance(v, tuple):
                raise Undecided('members')
        if set(l) != set(('p', 'q', 'ovr', 'pad', 'end', 'cnt', 'cnt0', 'cw')):
            raise Undecided('members')
        return l

    def construct():
        T = Terms()
        ps = Word(prog, mk, T).run()
        if len(ps) != 1:
            raise Undecided('paths')
        lay.update(layout(mk, ps[0].log, 'a0', lambda v: v == ('P', 'a1', 0), lambda v: v == ('P', 'a2', 0)))
        if lay['pad'] != 0x80:
            return 'the padding starts with %#x, not 0x80' % lay['pad']
        if lay['cnt0']:
            return 'the length starts with %d' % lay['cnt0']
    attempt('start of the byte source', mk, construct)

    def refer(T, r, ovr):
        c, o = 0, ovr
        x = []
        end = 0

        def word():
            nonlocal c, o
            v = num(0)
            for k in range(4):
                if c < r:
                    b = var('byte', c)
                    c += 1
                else:
                    b, o = num(o), 0
                v = v + b * num(1 << 8 * k)
            return T.norm(v, 32)
        for k in range(14):
            x.append(word())
        if c == r and o == 0:
            end = 1
            n = T.norm(var('cnt') + num(c), 64)
            x += [T.norm(n * num(8), 32), T.lshr(n, 29, 64)]
        else:
            x += [word(), word()]
        return x, c, o, end

    def block(r, ovr):
        T = Terms()
        W = Word(prog, fill, T)
        W.BUDGET = 5000
        p = Path()
        for m, v, sz in (('p', ('P', ('str',), 0), 8), ('q', ('P', ('str',), r), 8), ('ovr', num(ovr), 1), ('end', num(0), 1), ('cnt', var('cnt'), lay['cw'])):
            p.log.append(('st', 'a0', lay[m], sz, v))
        ps = W.run(0, p)
        if not ps or any(q.end != 'ret' for q in ps):
            raise Undecided('paths')
        ctx.count('blocks')
        for q in ps:
            m = judge(T, W, q, r, ovr)
            if m:
                return m

    def judge(T, W, q, r, ovr):
        T.conds = q.conds
        x, c, o, end = refer(T, r, ovr)
        for k in range(16):
            m = cmpw(T, W.load(q, 'a1', 4 * k, 4, 'i32'), x[k], 'word %d' % k)
            if m:
                return m
        at = W.load(q, 'a0', lay['p'], 8, 'ptr')
        if at != ('P', ('str',), c):
            return 'takes %s bytes, not %d' % (at[2] if isinstance(at, tuple) and at[1] == ('str',) else 'other', c)
        m = cmpw(T, W.load(q, 'a0', lay['end'], 1, 'i8'), num(end), 'the end mark', 8)
        m = m or cmpw(T, W.load(q, 'a0', lay['ovr'], 1, 'i8'), num(o), 'the state of the padding', 8)
        if not m and not end:
            m = cmpw(T, W.load(q, 'a0', lay['cnt'], lay['cw'], 'i%d' % (8 * lay['cw'])), var('cnt') + num(c), 'the count of bytes', 8 * lay['cw'])
        return m

    def blockset():
        if not lay:
            raise Undecided('members')
        # the mark 0x80 is still to come while bytes are left; 65 stands for more than a block
        for r, ovr in [(r, 0x80) for r in range(66)] + [(0, 0)]:
            m = block(r, ovr)
            if m:
                return 'with %s bytes left%s: %s' % ('more than 64' if r > 64 else r, '' if ovr else ' and the mark written', m)
    attempt('blocks and padding', fill, blockset)

    def isempty():
        if not lay:
            raise Undecided('members')
        for e in (0, 1):
            T = Terms()
            p = Path()
            p.log.append(('st', 'a0', lay['end'], 1, num(e)))
            ps = Word(prog, emp, T).run(0, p)
            if len(ps) != 1 or not isinstance(ps[0].ret, R) or ps[0].ret.const() is None:
                raise Undecided('returned value')
            if bool(int(ps[0].ret.const()) & 1) != bool(e):
                return 'is %s although the last block was %sgiven' % (bool(ps[0].ret.const()), '' if e else 'not ')
    attempt('end of the byte source', emp, isempty)

    class Opaque(Word):
        def call(self, p, i, n, a):
            d = i.dem or ''
            p.ev.append(('call', i, d, a))
            for x in a:
                if isinstance(x, tuple) and x[0] == 'P' and 'const' not in d.split(')')[-1] and '::calc(' not in d:
                    p.log.append(('any', x[1], i.id))
            if i.ty == 'ptr':
                p.env[i.id] = ('P', ('r', i.id), 0)
            elif i.ty not in (None, 'void'):
                p.env[i.id] = var('r', i.id)
            return True

        def load(self, p, root, off, sz, ty, upto=None):
            v = Formula.load(self, p, root, off, sz, ty, upto)
            return ('P', ('*', v.key()), 0) if ty == 'ptr' and isinstance(v, R) and v.const() is None else v

        def inst(self, p, i):
            if i.op == 'getelementptr' and i.d.get('var'):
                b = self.val(p, i.ops[0])
                if isinstance(b, tuple) and b[:2] == ('P', 'a0'):
                    p.env[i.id] = ('P', ('ios',), 0)
                    return
            return Word.inst(self, p, i)

    def make(f, src):
        def job():
            T = Terms()
            O = Opaque(prog, f, T)
            ps = [p for p in O.run() if p.end == 'ret']
            for p in ps:
                cs = [e for e in p.ev if e[0] == 'call' and '::calc(' in e[2]]
                if len(cs) != 1:
                    return 'the digest is computed %d times' % len(cs)
                a = cs[0][3]
                if a[0] != ('P', 'a0', 0):
                    raise Undecided('object')
                if src == 'range':
                    first, last = (lambda v: v == ('P', 'a1', 0)), (lambda v: v == ('P', 'a2', 0))
                else:
                    def ret(name):
                        ids = [('P', ('r', e[1].id), 0) for e in p.ev if e[0] == 'call' and re.search(r'basic_string<.*::%s\(' % name, e[2]) and e[3][0] == ('P', 'a1', 0)]
                        return lambda v: v in ids
                    first, last = ret('c?begin'), ret('c?end')
                l = layout(f, p.log, a[1][1], first, last)
                if l['pad'] != 0x80 or l['cnt0']:
                    return 'the byte source starts in a wrong state'
                if l['q'] < l['p']:
                    raise Undecided('members')
            if not ps:
                raise Undecided('no path')
        return job
    for n, s in (('of_range', 'range'), ('of_string', 'string')):
        f = fn(r'driver_digest::%s\(' % n)
        if f:
            attempt('digest of a ' + s, f, make(f, s))

    # the order
    less = fn(r'driver_digest::less\(')

    def order():
        T = Terms()
        W = Word(prog, less, T)
        ps = W.run()
        ms = [4 * k for k in range(4)]

        def member(r):
            a = r.atom() if isinstance(r, R) else None
            return (a[1], a[2]) if a and a[0] == 'ld' else None
        # every combination of (less, equal, greater) per member
        import itertools
        for s in itertools.product((-1, 0, 1), repeat=4):
            val = {}
            for k in range(4):
                val[('a0', 4 * k)] = 1
                val[('a1', 4 * k)] = 1 - s[k]

            def ev(c):
                if isinstance(c, R) and c.const() is not None:
                    return bool(c.const())
                if isinstance(c, tuple) and c[0] == 'not':
                    return not ev(c[1])
                if isinstance(c, tuple) and c[0] in ('and', 'or'):
                    x, y = ev(c[1]), ev(c[2])
                    return (x and y) if c[0] == 'and' else (x or y)
                if isinstance(c, tuple) and c[0] == 'cmp':
                    x, y = member(c[2]), member(c[3])
                    if x not in val or y not in val or x[1] != y[1]:
                        raise Undecided('comparison')
                    x, y = val[x], val[y]
                    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[c[1]]
                raise Undecided('condition')
            hit = [p for p in ps if all(ev(c) == v for c, v in p.conds)]
            if len(hit) != 1:
                raise Undecided('paths')
            want = next((x < 0 for x in s if x), False)
            if ev(hit[0].ret) != want:
                return 'is %s for digests whose words compare as %s' % (not want, ' '.join({-1: 'less', 0: 'equal', 1: 'greater'}[x] for x in s))
        sg = [i for i in less.insts() if i.op == 'icmp' and i.d['p'][0] == 's' and i.d.get('st') == 'i32']
        if sg:
            return 'compares words as signed numbers (%s)' % sg[0].where()
    if less:
        attempt('operator<', less, order)

    pr = fn(r'driver_digest::print\(')

    def printed():
        T = Terms()
        O = Opaque(prog, pr, T)
        ps = [p for p in O.run() if p.end == 'ret']
        if len(ps) != 1:
            raise Undecided('paths')
        evs = [e for e in ps[0].ev if e[0] == 'call']
        outs = [k for k, e in enumerate(evs) if re.search(r'(ostream|basic_ostream<.*>)::operator<<\((unsigned )?(int|long|short)\)', e[2])]
        if len(outs) != 16:
            raise Undecided('output of %d numbers' % len(outs))
        fills = [k for k, e in enumerate(evs) if re.search(r'basic_ios<char.*>::fill\(char\)', e[2])]
        if not any(k < outs[0] and isinstance(evs[k][3][1], R) and evs[k][3][1].const() == 48 for k in fills):
            if any('setfill' in e[2] for e in evs):
                raise Undecided('fill character')
            return 'the fill character is not 0'
        if not any('operator<<' in e[2] and any(x == ('P', 'g:_ZSt3hexRSt8ios_base', 0) for x in e[3]) for e in evs[:outs[0]]):
            raise Undecided('hex')
        prev = -1
        for n, k in enumerate(outs):
            ws = [e for e in evs[prev + 1:k] if re.match(r'std::setw\(', e[2])]
            if not ws:
                return 'byte %d is written without a width: a leading zero is lost' % n
            c = ws[-1][3][0].const() if isinstance(ws[-1][3][0], R) else None
            if c != 2:
                if c is None:
                    raise Undecided('width')
                return 'byte %d is written with width %s' % (n, c)
            v = evs[k][3][1]
            ref = T.bw('and', T.lshr(var('ld', 'a1', 4 * (n // 4)), 8 * (n % 4), 32), num(255), 32)
            m = cmpw(T, v, ref, 'byte %d as printed' % n)
            if m:
                return m
            prev = k
    if pr:
        attempt('printed form', pr, printed)


def blocks(ctx, prog, f, cmpw):
    T = Terms()
    heads = sorted(f.loops())

    class Calc(Word):
        tables = {}

        def call(self, p, i, n, a):
            if not n and 'cv' in i.d:
                t = self.val(p, i.d['cv'])
                if not (isinstance(t, tuple) and isinstance(t[1], tuple) and t[1][0] == '*' and isinstance(t[1][1], tuple) and t[1][1][1:] == ('a1', 0)):
                    raise Undecided('virtual call')
                if len(a) == 1 and i.ty == 'i1':
                    p.ev.append(('empty', i))
                    p.env[i.id] = var('empty', i.id)
                    return True
                if len(a) == 2 and isinstance(a[1], tuple) and a[1][0] == 'P':
                    p.ev.append(('get', i, a[1]))
                    for k in range(16):
                        p.log.append(('st', a[1][1], a[1][2] + 4 * k, 4, var('x', len([e for e in p.ev if e[0] == 'get']) - 1, k)))
                    return True
                raise Undecided('virtual call')
            d = i.dem or n
            if n == 'sin' or re.match(r'std::sin\(', d):
                p.env[i.id] = self.T.t('sin', a[0])
                return True
            if n in ('fabs',) or n.startswith('llvm.fabs') or re.match(r'std::(f?abs)\(double\)', d):
                p.env[i.id] = self.T.t('fabs', a[0])
                return True
            return Word.call(self, p, i, n, a)

        def load(self, p, root, off, sz, ty, upto=None):
            if root in self.tables and sz == 4 and off % 4 == 0:
                lo, hi, shift = self.tables[root]
                if lo <= off // 4 <= hi:
                    return num(int(4294967296.0 * abs(math.sin(off // 4 + shift))))
                return var('undef', root, off)
            return Formula.load(self, p, root, off, sz, ty, upto)

    C = Calc(prog, f, T, heads)
    C.tables = {}
    starts = C.run()
    mains = []
    # loops that fill a table come first
    for hop in range(3):
        if len(starts) != 1 or not isinstance(starts[0].end, tuple) or starts[0].end[0] != 'cut':
            raise Undecided('structure')
        p = starts[0]
        h = p.end[1]
        q = p.copy()
        ph = dict(p.phis)
        for v in ph:
            q.env[v] = var('i', v)
        nxt = C.run(h, q)
        again = [x for x in nxt if x.end == ('cut', h)]
        if any(e[0] == 'get' for x in again for e in x.ev):
            mains = (p, h)
            break
        out = [x for x in nxt if x.end != ('cut', h)]
        if len(again) != 1 or len(out) != 1 or len(ph) != 1:
            raise Undecided('first loop')
        (v, i0), = ph.items()
        x = again[0]
        i0 = i0.const()
        st = [e for e in x.log[len(q.log):] if e[0] == 'st']
        idx = var('i', v)
        if i0 is None or len(st) != 1 or not (isinstance(st[0][1], tuple) and st[0][1][0] == 'elt' and st[0][1][4] == 4 and st[0][1][3] == idx.key()):
            raise Undecided('first loop')
        if not x.phis[v].same(T.norm(idx + num(1), 32)) or len(x.conds) != 1 + len(q.conds):
            raise Undecided('first loop')
        c, val = x.conds[-1]
        if c[0] != 'cmp' or not (isinstance(c[2], R) and c[2].same(idx)) or c[3].const() is None:
            raise Undecided('first loop')
        op = c[1] if val else NEG[c[1]]
        k = int(c[3].const())
        hi = {'le': k, 'lt': k - 1, 'ne': k - 1}.get(op)
        if hi is None:
            raise Undecided('first loop')
        base = st[0][1][2] // 4
        val = st[0][4]
        # fptoui(2^32 * |sin(i + shift)|)
        a = val.atom()
        d = C.defs.get(a) if a else None
        if not d or d[0] not in ('fptoui', 'fptosi'):
            raise Undecided('table')
        e = d[1]
        if len(e.n) != 1:
            raise Undecided('table')
        (mono, co), = e.n.items()
        if len(mono) != 1 or mono[0][1] != 1 or mono[0][0][0] != 't':
            raise Undecided('table')
        g = T.defs[mono[0][0][1]]
        if g[0] == 'sin':
            return 'the table holds sin(i), not |sin(i)|'
        s = T.dfn(g[1][0]) if g[0] == 'fabs' else None
        if not s or s[0] != 'sin':
            raise Undecided('table')
        if co != 4294967296:
            return 'the table is scaled by %s, not 2^32' % co
        sh = (s[1][0] - idx).const()
        if sh is None:
            raise Undecided('table')
        root = st[0][1][1]
        C.tables[root] = (int(i0) + base, hi + base, int(sh) - base)
        o = out[0]
        starts = [o]
        ctx.count('table_entries', hi - int(i0) + 1)
    if not mains:
        raise Undecided('no block loop')
    p, h = mains
    sym = [var('s', k) for k in range(4)]
    ini = []
    for k in range(4):
        v = C.load(p, 'a0', 4 * k, 4, 'i32')
        c = v.const() if isinstance(v, R) else None
        ini.append(None if c is None else int(c) % (1 << 32))
    role = {}
    for v, x in p.phis.items():
        c = x.const() if isinstance(x, R) else None
        if c is not None and int(c) % (1 << 32) in IV:
            role[v] = IV.index(int(c) % (1 << 32))
    for k in range(4):
        if ini[k] is None:
            if k not in role.values():
                raise Undecided('initial state')
        elif ini[k] != IV[k]:
            return 'word %d of the state starts with %#x' % (k, ini[k])
    q = p.copy()
    for v in p.phis:
        q.env[v] = sym[role[v]] if v in role else var('i', v)
    for k in range(4):
        if ini[k] is not None:
            q.log.append(('st', 'a0', 4 * k, 4, sym[k]))
    nl, ne = len(q.log), len(q.ev)
    paths = C.run(h, q)
    body = [x for x in paths if x.end == ('cut', h)]
    done = [x for x in paths if x.end == 'ret']
    if not body or not done or len(body) + len(done) != len(paths):
        raise Undecided('paths')
    want = None
    for x in body:
        ev = x.ev[ne:]
        if [e[0] for e in ev if e[0] != 'store'] != ['empty', 'get']:
            raise Undecided('calls on the byte source')
        em = [e for e in ev if e[0] == 'empty'][0]
        tr = [v for c, v in x.conds if c == ('bool', var('empty', em[1].id)) or (c[0] == 'bool' and isinstance(c[1], R) and c[1].atom() == ('empty', em[1].id))]
        if tr != [False]:
            raise Undecided('condition of the block loop')
        if want is None:
            want = reference(T, sym, [var('x', 0, k) for k in range(16)])
        for k in range(4):
            if ini[k] is not None:
                m = cmpw(T, C.load(x, 'a0', 4 * k, 4, 'i32'), want[k], 'word %d of the state after a block' % k)
                if m:
                    return m
        for v, k in role.items():
            m = cmpw(T, x.phis[v], want[k], 'word %d of the state after a block' % k)
            if m:
                return m
    for x in done:
        for k in range(4):
            m = cmpw(T, C.load(x, 'a0', 4 * k, 4, 'i32'), sym[k], 'word %d of the digest' % k)
            if m:
                return m
    ctx.count('steps_compared', 64)
    return None

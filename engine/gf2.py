"""Dataflow in the domain of GF(2)-linear words: what a bit-twiddling function leaves in each bit.

Every machine word is a tuple of bits, each a sum over GF(2) of input bits (a frozenset of atoms, the atom 1 for the constant), or an
affine combination of such words modulo 2^w. Loop counters, indices and other words without input bits are constants and are
propagated; a branch that depends on an input bit is merged at its join. Anything else is undecided. The transfer functions are exact,
so two functions are the same map if and only if the bits they leave have the same normal form (affine parts: sufficient)."""
from pfa import *
from formula import Undecided

E = frozenset()
O = frozenset([1])


class Aff:
    __slots__ = ('w', 'c', 't')

    def __init__(self, w, c, t):
        m = (1 << w) - 1
        self.w, self.c = w, c & m
        self.t = dict((k, v & m) for k, v in t.items() if v & m)


class Words:
    BUDGET = 3000000

    def __init__(self, prog):
        self.prog = prog
        self.mem = {}
        self.ids, self.info = {}, {}
        self.words = {}
        self.steps = 0
        self.depth = 0
        self.nalloca = 0

    # ---------------------------------------------------------------- values
    def intern(self, key):
        r = self.ids.get(key)
        if r is None:
            r = self.ids[key] = ('n', len(self.ids))
            self.info[r] = key
        return r

    def atombits(self, a, n):
        return self.words[a][:n]

    def bits(self, x, w):
        if isinstance(x, int):
            return tuple(O if x >> k & 1 else E for k in range(w))
        if isinstance(x, Aff):
            out = []
            for k in range(w):
                if k >= x.w:
                    out.append(E)
                    continue
                m = (2 << k) - 1
                ts = tuple(sorted((self.cutatom(a, k + 1), c & m) for a, c in x.t.items() if c & m))
                out.append(frozenset([self.intern(('a', k, x.c & m, ts))]))
            return tuple(out)
        return x

    def cutatom(self, a, n):
        b = self.words[a]
        return a if len(b) <= n else self.atom(b[:n])

    def atom(self, b):
        while b and not b[-1]:
            b = b[:-1]
        a = self.intern(('w', b))
        self.words[a] = b
        return a

    def norm(self, b):
        """an int if all bits are constant"""
        if all(x <= O for x in b):
            return sum(1 << k for k, x in enumerate(b) if x)
        return b

    def aff(self, x, w):
        if isinstance(x, Aff):
            return x if x.w == w else self.aff(self.bits(x, w), w)
        if isinstance(x, int):
            return Aff(w, x, {})
        # the bits of an affine word again?
        last = x[-1]
        if len(last) == 1:
            q = self.info.get(next(iter(last)))
            if q and q[0] == 'a' and q[1] == w - 1:
                y = Aff(w, q[2], dict(q[3]))
                if self.bits(y, w) == x:
                    return y
        return Aff(w, 0, {self.atom(x): 1})

    def simple(self, y):
        if not y.t:
            return y.c
        if len(y.t) == 1 and not y.c:
            (a, c), = y.t.items()
            b = self.words[a]
            if len(b) == 1:
                return self.norm(tuple(b[0] if c >> k & 1 else E for k in range(y.w)))
            if c & (c - 1) == 0:
                s = c.bit_length() - 1
                return self.norm(((E,) * s + b + (E,) * y.w)[:y.w])
        return y

    def xor(self, x, y, w):
        return self.norm(tuple(a ^ b for a, b in zip(self.bits(x, w), self.bits(y, w))))

    def andor(self, x, y, w, op):
        out = []
        for a, b in zip(self.bits(x, w), self.bits(y, w)):
            if a == b:
                out.append(a)
            elif a <= O or b <= O:
                k, s = (a, b) if a <= O else (b, a)
                out.append((s if k else E) if op == 'and' else (O if k else s))
            else:
                raise Undecided('product of input bits')
        return self.norm(tuple(out))

    def binop(self, op, x, y, w):
        m = (1 << w) - 1

        def sg(v):
            return v - (1 << w) if v >> (w - 1) else v
        if isinstance(x, int) and isinstance(y, int):
            if op in ('udiv', 'urem', 'sdiv', 'srem') and y == 0:
                raise Undecided('division by zero')
            if op in ('sdiv', 'srem'):
                a, b = sg(x), sg(y)
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return (q if op == 'sdiv' else a - b * q) & m
            f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                 'shl': lambda: x << y if y < w else 0, 'lshr': lambda: x >> y, 'ashr': lambda: sg(x) >> y, 'udiv': lambda: x // y, 'urem': lambda: x % y}.get(op)
            if not f:
                raise Undecided(op)
            return f() & m
        if op == 'xor':
            return self.xor(x, y, w)
        if op in ('and', 'or'):
            return self.andor(x, y, w, op)
        if op in ('shl', 'lshr', 'ashr'):
            if not isinstance(y, int) or y >= w:
                raise Undecided('shift')
            b = self.bits(x, w)
            if op == 'shl':
                return self.norm((E,) * y + b[:w - y])
            return self.norm(b[y:] + (E if op == 'lshr' else b[-1],) * y)
        if op in ('add', 'sub'):
            if not isinstance(x, Aff) and not isinstance(y, Aff):
                a, b = self.bits(x, w), self.bits(y, w)
                if op == 'add' and all(not p or not q for p, q in zip(a, b)):
                    return self.norm(tuple(p or q for p, q in zip(a, b)))
                if op == 'sub' and x == 0 and not any(b[1:]):
                    return self.norm((b[0],) * w)
            p, q = self.aff(x, w), self.aff(y, w)
            s = 1 if op == 'add' else -1
            t = dict(p.t)
            for k, v in q.t.items():
                t[k] = t.get(k, 0) + s * v
            return self.simple(Aff(w, p.c + s * q.c, t))
        if op == 'mul':
            if isinstance(x, int):
                x, y = y, x
            if isinstance(y, int):
                p = self.aff(x, w)
                return self.simple(Aff(w, p.c * y, dict((k, v * y) for k, v in p.t.items())))
            raise Undecided('product of input words')
        if op in ('urem', 'udiv') and isinstance(y, int) and y & (y - 1) == 0 and y:
            s = y.bit_length() - 1
            return self.andor(x, y - 1, w, 'and') if op == 'urem' else self.binop('lshr', x, s, w)
        raise Undecided(op)

    def choose(self, c, x, y, w):
        """c ? x : y for a one-bit c"""
        if isinstance(x, tuple) and x and x[0] == 'P' or isinstance(y, tuple) and y and y[0] == 'P':
            if x == y:
                return x
            raise Undecided('choice of pointers')
        a, b = self.bits(x, w), self.bits(y, w)
        out = []
        for p, q in zip(a, b):
            d = p ^ q
            if d == E:
                out.append(q)
            elif d == O:
                out.append(q ^ c)
            else:
                raise Undecided('choice')
        return self.norm(tuple(out))

    # ---------------------------------------------------------------- memory
    def width(self, t):
        mm = re.match(r'^i(\d+)$', t or '')
        if not mm:
            raise Undecided('type %s' % t)
        return int(mm.group(1))

    def load(self, r, o, ty):
        if ty == 'ptr':
            v = self.mem.get((r, o, 8))
            if v is None:
                raise Undecided('pointer in memory')
            return v
        w = self.width(ty)
        n = (w + 7) // 8
        v = self.mem.get((r, o, n))
        if v is None:
            if isinstance(r, str) and r.startswith('g:'):
                d = self.prog.globals.get(r[2:])
                if d and d.get('init') is not None and (d.get('const') or d.get('onlyloaded')):
                    init, esz = d['init'], d.get('esz', 1)
                    if not isinstance(init, list):
                        init, esz = [init], n
                    if esz == n and o % n == 0 and 0 <= o // n < len(init):
                        return int(init[o // n]) & ((1 << w) - 1)
            raise Undecided('memory')
        return v

    # ---------------------------------------------------------------- execution of a function's graph
    def val(self, fr, v, w=None):
        env, f, args = fr
        if v in env:
            return env[v]
        if v.startswith('c:'):
            k = int(v[2:])
            return k & ((1 << w) - 1) if w else k
        if v == 'null':
            return ('P', 'null', 0)
        if v in ('undef', 'poison'):
            return 0
        if v.startswith('g:'):
            return ('P', v, 0)
        m = re.match(r'^a(\d+)$', v)
        if m:
            return args[int(m.group(1))]
        raise Undecided('value %s' % v)

    def call(self, f, args):
        self.depth += 1
        if self.depth > 12:
            raise Undecided('recursion')
        fr = ({}, f, args)
        r = self.blocks(fr, 0, None, None)
        self.depth -= 1
        return r[1]

    def blocks(self, fr, b, prev, stop):
        """run from block b until it returns ('ret', value) or reaches block stop ('at', prev)"""
        env, f, args = fr
        while True:
            if b == stop:
                return ('at', prev)
            blk = f.blocks[b]
            new = {}
            for i in blk:
                if i.op == 'phi':
                    new[i.id] = self.val(fr, i.ops[i.d['in'].index(prev)], None if i.ty == 'ptr' else self.width(i.ty))
            env.update(new)
            for i in blk:
                if i.op == 'phi':
                    continue
                self.steps += 1
                if self.steps > self.BUDGET:
                    raise Undecided('too long')
                if i.op == 'ret':
                    return ('ret', self.val(fr, i.ops[0], self.rw(f)) if i.ops else None)
                if i.op == 'br':
                    if not i.ops:
                        prev, b = b, i.d['succ'][0]
                        break
                    c = self.val(fr, i.ops[0], 1)
                    if isinstance(c, int):
                        prev, b = b, i.d['succ'][0 if c else 1]
                        break
                    prev, b = self.merge(fr, b, c[0], i.d['succ'])
                    break
                if i.op == 'switch':
                    c = self.val(fr, i.ops[0])
                    if not isinstance(c, int):
                        raise Undecided('switch')
                    prev, b = b, dict((int(x), y) for x, y in i.d['cases']).get(c, i.d['def'])
                    break
                if i.op in ('unreachable', 'resume', 'indirectbr'):
                    raise Undecided(i.op)
                self.inst(fr, i)
                if i.op == 'invoke':
                    prev, b = b, i.d['normal']
                    break

    def rw(self, f):
        return None

    def merge(self, fr, b, c, succ):
        """both ways of a branch on an input bit, up to where they join; the join's phis are set"""
        env, f, args = fr
        chains = []
        for s in succ:
            ch, x = [], s
            while x not in ch and len(ch) < 6:
                ch.append(x)
                n = f.succs(x, exceptional=False)
                if len(n) != 1:
                    break
                x = n[0]
            chains.append(ch)
        join = next((x for x in chains[0] if x in chains[1]), None)
        if join is None:
            raise Undecided('branch on an input bit')
        mem0, env0 = self.mem, dict(env)
        res = []
        for s in succ:
            self.mem = dict(mem0)
            env.clear()
            env.update(env0)
            r = self.blocks(fr, s, b, join) if s != join else ('at', b)
            if r[0] != 'at':
                raise Undecided('branch on an input bit')
            ph = {}
            for i in f.blocks[join]:
                if i.op == 'phi':
                    ph[i.id] = (self.val(fr, i.ops[i.d['in'].index(r[1])], None if i.ty == 'ptr' else self.width(i.ty)), i.ty)
            res.append((self.mem, ph, dict(env)))
        (m1, p1, e1), (m2, p2, e2) = res
        self.mem = {}
        for k in set(m1) | set(m2):
            if k in m1 and k in m2:
                x, y = m1[k], m2[k]
                self.mem[k] = x if x is y or (not isinstance(x, Aff) and x == y) else self.choose(c, x, y, k[2] * 8)
        env.clear()
        env.update(env0)
        new = dict((k, self.choose(c, p1[k][0], p2[k][0], 64 if p1[k][1] == 'ptr' else self.width(p1[k][1]))) for k in p1)
        # a marker block number would be needed to enter the join through its phis: set them here and continue behind them
        env.update(new)
        self.joined = (join, new)
        return self.enter(fr, join, new)

    def enter(self, fr, join, new):
        """run the rest of the join block with its phis set; returns (prev, next block)"""
        env, f, args = fr
        for i in f.blocks[join]:
            if i.op == 'phi':
                continue
            self.steps += 1
            if i.op == 'br':
                if not i.ops:
                    return join, i.d['succ'][0]
                c = self.val(fr, i.ops[0], 1)
                if isinstance(c, int):
                    return join, i.d['succ'][0 if c else 1]
                return self.merge(fr, join, c[0], i.d['succ'])
            if i.op in ('ret', 'switch', 'invoke', 'unreachable', 'resume'):
                raise Undecided('branch on an input bit before %s' % i.op)
            self.inst(fr, i)

    def inst(self, fr, i):
        env, f, args = fr
        op = i.op
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            w = self.width(i.ty)
            env[i.id] = self.binop(op, self.val(fr, i.ops[0], w), self.val(fr, i.ops[1], w), w)
        elif op in ('zext', 'sext', 'trunc'):
            s, w = self.width(i.d['st']), self.width(i.ty)
            x = self.val(fr, i.ops[0], s)
            if isinstance(x, int):
                env[i.id] = (x - (1 << s) if op == 'sext' and x >> (s - 1) & 1 else x) & ((1 << w) - 1)
            elif op == 'trunc' and isinstance(x, Aff):
                t = {}
                for a, v in x.t.items():
                    a = self.cutatom(a, w)
                    t[a] = t.get(a, 0) + v
                env[i.id] = self.simple(Aff(w, x.c, t))
            else:
                b = self.bits(x, s)
                env[i.id] = self.norm(b[:w] if op == 'trunc' else b + ((E if op == 'zext' else b[-1]),) * (w - s))
        elif op in ('freeze', 'bitcast'):
            env[i.id] = self.val(fr, i.ops[0])
        elif op == 'icmp':
            if i.d['st'] == 'ptr':
                x, y = self.val(fr, i.ops[0]), self.val(fr, i.ops[1])
                if x[1] != y[1]:
                    raise Undecided('pointer comparison')
                x, y, w = x[2], y[2], 64
            else:
                w = self.width(i.d['st'])
                x, y = self.val(fr, i.ops[0], w), self.val(fr, i.ops[1], w)
            p = i.d['p']
            if isinstance(x, int) and isinstance(y, int):
                if p[0] == 's':
                    x, y = [v - (1 << w) if v >> (w - 1) & 1 and v >= 0 else v for v in (x, y)]
                env[i.id] = int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[-2:]])
                return
            if p in ('eq', 'ne') and not isinstance(x, Aff) and not isinstance(y, Aff):
                d = self.bits(self.xor(x, y, w), w)
                sym = [k for k in d if k != E]
                if len(sym) == 1:
                    env[i.id] = self.norm((sym[0] if p == 'ne' else sym[0] ^ O,))
                    return
                if any(k == O for k in sym):
                    env[i.id] = int(p == 'ne')
                    return
            if p in ('slt', 'sge') and y == 0 and not isinstance(x, Aff):
                env[i.id] = self.norm((x[-1] if p == 'slt' else x[-1] ^ O,))
                return
            raise Undecided('comparison of input bits')
        elif op == 'select':
            c = self.val(fr, i.ops[0], 1)
            w = None if i.ty == 'ptr' else self.width(i.ty)
            x, y = self.val(fr, i.ops[1], w), self.val(fr, i.ops[2], w)
            env[i.id] = (x if c else y) if isinstance(c, int) else self.choose(c[0], x, y, w)
        elif op == 'alloca':
            self.nalloca += 1
            env[i.id] = ('P', ('alloca', self.nalloca), 0)
        elif op == 'getelementptr':
            p = self.val(fr, i.ops[0])
            o = p[2] + i.d.get('off', 0)
            sym = None
            for v, sc in i.d.get('var', []):
                k = self.val(fr, v, 64)
                if isinstance(k, int):
                    o += (k - (1 << 64) if k >> 63 else k) * sc
                elif sym is None and not isinstance(k, Aff) and not any(k[1:]):
                    sym = (k[0], sc)
                else:
                    raise Undecided('index')
            env[i.id] = ('P', p[1], o) if sym is None else ('P?', p[1], o, sym)
        elif op == 'load':
            p = self.val(fr, i.ops[0])
            if p[0] == 'P?':
                c, sc = p[3]
                env[i.id] = self.choose(c, self.load(p[1], p[2] + sc, i.ty), self.load(p[1], p[2], i.ty), self.width(i.ty))
            else:
                env[i.id] = self.load(p[1], p[2], i.ty)
        elif op == 'store':
            p = self.val(fr, i.ops[1])
            if p[0] != 'P':
                raise Undecided('store')
            t = i.d['vt']
            n = 8 if t == 'ptr' else (self.width(t) + 7) // 8
            x = self.val(fr, i.ops[0], None if t == 'ptr' else self.width(t))
            for k in [(p[1], p[2] + d, z) for d in range(-7, n) for z in (1, 2, 4, 8) if (d or z != n) and (d >= 0 or d + z > 0)]:
                self.mem.pop(k, None)
            self.mem[(p[1], p[2], n)] = x
        elif op in ('call', 'invoke'):
            n = i.callee or ''
            if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.experimental.noalias') or n in ('llvm.assume', 'llvm.donothing'):
                return
            g = self.prog.by_dem.get(i.dem)
            if g is None:
                raise Undecided('call of %s' % (i.dem or n)[:60])
            a = [self.val(fr, o, None if t.get('t') == 'ptr' else self.width(t.get('t'))) for o, t in zip(i.ops, g.args)]
            env[i.id] = self.call(g, a)
        else:
            raise Undecided(op)

"""Value numbering with symbolic addresses, closed forms of loops and linear consequence.

Loops are summarised by their induction variables: one generic pass gives the change of every phi, memory cell and ghost variable per
iteration; those whose changes are fixed multiples of one another on every back edge are written x = x0 + m*T with a common progress T.
Whether a linear inequality holds is decided by combining at most three of the path's conditions (no search beyond that)."""
import itertools
from formula import *


def offr(o):
    return o if isinstance(o, R) else num(o)


class Induct(Formula):
    BUDGET = 20000
    MAXPATHS = 600
    bytes_ = ('i8',)

    def __init__(self, prog, f):
        Formula.__init__(self, prog, f)
        self.loopinfo = f.loops()
        self.cuts = set(self.loopinfo)
        self.mute = 0
        self.problems = []

    # --- hooks
    def put(self, p, root, off, sz, x, i):
        """a store at a computed place"""
        raise Undecided('computed store')

    def copyto(self, p, dst, src, n, i):
        raise Undecided('copy of computed size')

    def bad(self, p, msg, i):
        if not self.mute:
            self.problems.append((i, msg))

    # --- linear consequence
    def facts(self, p):
        out, ne = list(p.env.get('#facts', ())), []
        for c, v in p.conds:
            if c[0] != 'cmp' or not isinstance(c[2], R) or not isinstance(c[3], R):
                continue
            r = c[1] if v else NEG[c[1]]
            z = c[2] - c[3]
            if r == 'lt':
                out.append(-z - num(1))
            elif r == 'le':
                out.append(-z)
            elif r == 'gt':
                out.append(z - num(1))
            elif r == 'ge':
                out.append(z)
            elif r == 'eq':
                out += [z, -z]
            else:
                ne.append(z)
        out = [x for x in out if x.const() is None and x.d == {(): 1}]
        for z in ne:
            if z.const() is None and z.d == {(): 1}:
                if self.combine(p, z, out):
                    out.append(z - num(1))
                elif self.combine(p, -z, out):
                    out.append(-z - num(1))
        return out

    def nonneg(self, p, a):
        return isinstance(a, tuple) and (a[0] == 'T+' or a in p.env.get('#nn', ()))

    def trivial(self, p, x):
        if x.d != {(): 1}:
            return False
        for m, c in x.n.items():
            if c < 0 or any(not self.nonneg(p, a) for a, e in m):
                return False
        return True

    def implies(self, p, x):
        """x >= 0 on this path"""
        if self.trivial(p, x):
            return True
        if x.d != {(): 1}:
            return False
        return self.combine(p, x, self.facts(p))

    def combine(self, p, x, fs):
        if self.trivial(p, x):
            return True
        fs = [f for f in fs if f.atoms()]
        for k in (1, 2, 3):
            for c in itertools.combinations(fs, k):
                s = x
                for f in c:
                    s = s - f
                if self.trivial(p, s):
                    return True
            if len(fs) > 24 and k == 2:
                break
        return False

    def subst(self, x, m):
        """x with the atoms of m replaced"""
        if x.d != {(): 1}:
            return None
        r = num(0)
        for mon, c in x.n.items():
            t = num(c)
            for a, e in mon:
                v = m.get(a, None)
                v = R({((a, 1),): 1}) if v is None else v
                for _ in range(e):
                    t = t * v
            r = r + t
        return r

    def equal(self, p, a, b):
        if a.same(b):
            return True
        return self.implies(p, a - b) and self.implies(p, b - a)

    def truth(self, p, c):
        t = Formula.truth(self, p, c)
        if t is None and isinstance(c, tuple) and c[0] == 'cmp' and isinstance(c[2], R) and isinstance(c[3], R):
            z = c[2] - c[3]
            r = c[1]
            lo, hi = (lambda k: self.implies(p, z - num(k))), (lambda k: self.implies(p, num(k) - z))
            if r == 'ge':
                return True if lo(0) else (False if hi(-1) else None)
            if r == 'gt':
                return True if lo(1) else (False if hi(0) else None)
            if r == 'le':
                return True if hi(0) else (False if lo(1) else None)
            if r == 'lt':
                return True if hi(-1) else (False if lo(0) else None)
            e = True if lo(0) and hi(0) else (False if lo(1) or hi(-1) else None)
            if e is not None:
                return e == (r == 'eq')
        return t

    # --- values
    def cast(self, p, i, op, a):
        if op == 'ptrtoint' and isinstance(a, tuple) and a[0] == 'P':
            return var('addr', a[1]) + offr(a[2])
        if isinstance(a, R):
            st = i.d.get('st')
            if op == 'sext' and st == 'i8' and a.const() is None:
                return var('sext8', a.key())
            if op == 'trunc' and i.ty in ('i32', 'i64'):
                return a
            if op == 'trunc' and i.ty == 'i1' and st == 'i8':
                return a
            if op == 'trunc' and i.ty == 'i8' and a.atom() and a.atom()[0] in ('byte', 'flag'):
                return a
            if op == 'trunc' and i.ty == 'i8' and a.const() is not None:
                return num(int(a.const()) & 255)
        return Formula.cast(self, p, i, op, a)

    def inst(self, p, i):
        if i.op == 'getelementptr':
            r, off = self.ptr(self.val(p, i.ops[0]))
            o = offr(off) + num(i.d.get('off', 0))
            for v, sc in i.d.get('var', []):
                k = self.val(p, v)
                if not isinstance(k, R):
                    raise Undecided('index')
                o = o + k * num(sc)
            c = o.const()
            p.env[i.id] = ('P', r, int(c) if c is not None else o)
            return None
        if i.op == 'icmp':
            a, b = self.val(p, i.ops[0]), self.val(p, i.ops[1])
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'P' and b[0] == 'P':
                if a[1] == b[1]:
                    p.env[i.id] = ('cmp', rel(i.d['p']), offr(a[2]), offr(b[2]))
                    return None
                p.env[i.id] = ('cmp', rel(i.d['p']), var('addr', a[1]) + offr(a[2]), var('addr', b[1]) + offr(b[2]))
                return None
        if i.op == 'load' and i.ty != 'ptr':
            r, off = self.ptr(self.val(p, i.ops[0]))
            if isinstance(off, R) or self.symbolic(r):
                p.env[i.id] = self.loadbyte(p, r, offr(off), self.size(i.ty), i)
                return None
        if i.op == 'store':
            r, off = self.ptr(self.val(p, i.ops[1]))
            if isinstance(off, R) or self.symbolic(r):
                self.put(p, r, offr(off), self.size(i.d.get('vt')), self.val(p, i.ops[0]), i)
                return None
        if i.iscall:
            n = i.callee or ''
            if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
                a = [self.val(p, o) for o in i.ops[:3]]
                if a[2].const() is None or self.symbolic(self.ptr(a[0])[0]):
                    self.copyto(p, self.ptr(a[0]), self.ptr(a[1]), a[2], i)
                    if n in ('memcpy', 'memmove'):
                        p.env[i.id] = a[0]
                    return None
            return self.forkcall(p, i)
        return Formula.inst(self, p, i)

    def symbolic(self, root):
        """a byte array rather than a record"""
        return False

    def loadbyte(self, p, r, off, sz, i):
        return var('byte', r, off.key(), p.env.get('#ver', {}).get(r, 0))

    def fork(self, p, i, n, a):
        """list of paths if this call is modelled with a fork"""
        return None

    def forkcall(self, p, i):
        n = i.callee or ''
        if not n.startswith('llvm.'):
            a = []
            for o in i.ops:
                try:
                    a.append(self.val(p, o))
                except Undecided:
                    a.append(None)
            r = self.fork(p, i, n, a)
            if r is not None:
                return r
        self.docall(p, i)
        return [p]

    def term(self, p, b, t, work, out):
        if t.op == 'invoke':
            for q in self.forkcall(p, t):
                work.append((t.d['normal'], b, q, False))
            return
        return Formula.term(self, p, b, t, work, out)

    # --- loops
    def cells(self, p, frm):
        """fixed cells written since position frm of the log"""
        out = {}
        for e in p.log[frm:]:
            if e[0] == 'st':
                out[(e[1], e[2], e[3])] = True
            elif e[0] in ('cp', 'set', 'any'):
                out[(e[1], e[2] if e[0] != 'any' else None, None)] = True
        return out

    def ghosts(self, p):
        return [k for k in p.env if isinstance(k, str) and k.startswith('G:')]

    def explore(self, b=0, p=None, depth=0):
        """all paths from b; loops in closed form. Paths ending in ('back', h) are those returning to a loop head being summarised."""
        if depth > 6:
            raise Undecided('nested loops')
        out = []
        for q in self.run(b, p):
            if not (isinstance(q.end, tuple) and q.end[0] == 'cut'):
                out.append(q)
                continue
            h = q.end[1]
            if h in q.env.get('#in', ()):
                q.end = ('back', h)
                out.append(q)
                continue
            for r in self.loop(q, h, depth):
                out.append(r)
        return out

    def invariants(self, q, h, vs, start, backs):
        """bounds tested at the loop (with equality) that hold at entry and are kept by every pass"""
        own = set(('h', h, k) for k in vs)
        cand = []
        for r in backs:
            ne = [c[2] - c[3] for c, v in r.conds if c[0] == 'cmp' and isinstance(c[2], R) and isinstance(c[3], R) and (c[1] if v else NEG[c[1]]) == 'ne']
            for x in self.facts(r) + [z for z in ne if z.d == {(): 1}] + [-z for z in ne if z.d == {(): 1}]:
                if x.atoms() & own:
                    for y in (x, x + num(1)):
                        if not any(y.same(z) for z in cand):
                            cand.append(y)
        val = lambda r, k: (lambda v: offr(v[2]) if isinstance(v, tuple) and v[0] == 'P' else v)(self.current(r, k))
        def at(r):
            m = {}
            for k in vs:
                v = val(r, k)
                if isinstance(v, R):
                    m[('h', h, k)] = v
            return m
        m0 = at(q)
        cand = [x for x in cand if self.subst(x, m0) is not None and self.implies(q, self.subst(x, m0))]
        while cand:
            keep = []
            for x in cand:
                ok = True
                for r in backs:
                    r2 = r.copy()
                    r2.env['#facts'] = r.env.get('#facts', ()) + tuple(cand)
                    m = at(r)
                    if not x.atoms() & own <= set(m) or not self.implies(r2, self.subst(x, m)):
                        ok = False
                        break
                if ok:
                    keep.append(x)
            if len(keep) == len(cand):
                break
            cand = keep
        return cand

    def header(self, q, h, vals, tag):
        n = q.copy()
        n.env['#in'] = q.env.get('#in', ()) + (h,)
        n.env['#mark'] = dict(q.env.get('#mark', {}))
        n.env['#mark'][h] = len(n.log) + sum(1 for k in vals if k[0] == 'cell')
        for k, v in vals.items():
            if k[0] == 'phi':
                n.env[k[1]] = v
            elif k[0] == 'ghost':
                n.env[k[1]] = v
            else:
                n.log.append(('st', k[1], k[2], k[3], v))
        return n

    def current(self, q, k):
        if k[0] == 'phi':
            return q.phis[k[1]] if hasattr(q, 'phis') and k[1] in q.phis else q.env[k[1]]
        if k[0] == 'ghost':
            return q.env[k[1]]
        return Formula.load(self, q, k[1], k[2], k[3], 'i%d' % (8 * k[3]))

    def loop(self, q, h, depth):
        vs = [('phi', k) for k in q.phis] + [('ghost', g) for g in self.ghosts(q)]
        fresh = lambda k, x: ('P', x[1], var('h', h, k)) if isinstance(x, tuple) and x and x[0] == 'P' else var('h', h, k)
        self.mute += 1
        try:
            for rnd in range(4):
                start = {}
                for k in vs:
                    start[k] = fresh(k, self.current(q, k))
                n = self.header(q, h, start, 'g')
                paths = self.explore(h, n, depth + 1)
                backs = [r for r in paths if r.end == ('back', h)]
                new = set()
                for r in backs:
                    for (root, off, sz) in self.cells(r, r.env['#mark'][h]):
                        if off is None or sz is None:
                            raise Undecided('memory changed in a loop')
                        d = self.f.defs.get(root) if isinstance(root, str) else None
                        k = ('cell', root, off, sz)
                        if k not in vs:
                            new.add(k)
                if not new:
                    break
                vs += sorted(new, key=repr)
            else:
                raise Undecided('memory changed in a loop')
        finally:
            self.mute -= 1
        inv = self.invariants(q, h, vs, start, backs)
        # changes per iteration
        delta = {}
        for r in backs:
            for k in vs:
                a, b_ = start[k], self.current(r, k)
                if isinstance(a, tuple) and a[0] == 'P':
                    if not (isinstance(b_, tuple) and b_[0] == 'P' and b_[1] == a[1]):
                        delta.setdefault(k, []).append(None)
                        continue
                    a, b_ = offr(a[2]), offr(b_[2])
                if not isinstance(a, R) or not isinstance(b_, R):
                    delta.setdefault(k, []).append(None)
                    continue
                delta.setdefault(k, []).append(b_ - a)
        final = {}
        own = set(a for k in vs for a in [('h', h, k)])
        ref = None
        pos = False
        T = None
        for k in vs:
            ds = delta.get(k, [])
            if any(d is None for d in ds):
                final[k] = start[k]
                continue
            if all(not d.n for d in ds):
                final[k] = self.current(q, k)
                continue
            if any(d.atoms() & own for d in ds):
                final[k] = start[k]
                continue
            if ref is None:
                ref = ds
                pos = all(self.implies(r, d) for r, d in zip(backs, ds))
                neg = all(self.implies(r, -d) for r, d in zip(backs, ds))
                T = var('T+' if pos or neg else 'T', h, depth, len(q.log))
                sg = 1 if pos or not neg else -1
            m = None
            for d, e in zip(ds, ref):
                if not e.n:
                    if d.n:
                        m = False
                    continue
                c = (d / e).const()
                if c is None or (m is not None and m != c):
                    m = False
                else:
                    m = c if m is None else m
            if m is None or m is False:
                final[k] = start[k]
                continue
            x = self.current(q, k)
            if isinstance(x, tuple):
                o = offr(x[2]) + T * num(m * sg)
                final[k] = ('P', x[1], o)
            else:
                final[k] = x + T * num(m * sg)
        n = self.header(q, h, final, 'c')
        m = dict((('h', h, k), offr(final[k][2]) if isinstance(final[k], tuple) else final[k]) for k in vs if isinstance(final[k], (R, tuple)))
        n.env['#facts'] = n.env.get('#facts', ()) + tuple(y for y in (self.subst(x, m) for x in inv) if y is not None)
        out = []
        for r in self.explore(h, n, depth + 1):
            if r.end == ('back', h):
                self.atback(r, h)
                continue
            r.env['#in'] = tuple(x for x in r.env.get('#in', ()) if x != h)
            out.append(r)
        return out

    def atback(self, r, h):
        pass

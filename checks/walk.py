"""Loop-summarising path walk over linear forms: which transfers a (de)serialiser makes, how often, and on what."""
import re
from pfa import *

BUDGET = 4000


class Unknown(Exception):
    pass


def F(c=0, **kw):
    d = dict(kw)
    d[1] = c
    return norm(d)


def norm(d):
    return tuple(sorted(((k, v) for k, v in d.items() if v), key=str))


def lin(a, b, m=1):
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return None
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + m * v
    return norm(d)


def sym(s):
    return ((s, 1),)


def isform(x):
    return isinstance(x, tuple) and not (x and isinstance(x[0], str))


def cst(f):
    if f == ():
        return 0
    if isform(f) and len(f) == 1 and f[0][0] == 1:
        return f[0][1]
    return None


def neg(p):
    return {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}[p]


def show(f):
    if f is None:
        return '?'
    if not isform(f):
        return str(f)
    out = []
    for k, v in f:
        if k == 1:
            out.append('%d' % v)
        else:
            n = k if isinstance(k, str) else '.'.join(str(x) for x in k)
            out.append(n if v == 1 else '%d*%s' % (v, n))
    return ' + '.join(out) or '0'


class State(object):
    def __init__(self):
        self.env = {}
        self.mem = {}
        self.cur = None        # size of the container
        self.ev = []
        self.facts = []        # forms known to be >= 0
        self.eqs = {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.cur = self.cur
        s.ev = list(self.ev)
        s.facts = list(self.facts)
        return s


class Walk(object):
    """walks one function; `direction` is 'r' or 'w'"""
    TR = re.compile(r'(driver_ser::(\w+)::serialize<|^(?:void )?pfi::data::serialization::serialize\(pfi::data::serialization::binary_([io])archive&, ([\w ]+?)&?\)$)')

    def __init__(self, prog, f, direction, cont='a1', arch='a0', nfix=None):
        self.prog, self.f, self.dir, self.cont, self.arch = prog, f, direction, cont, arch
        self.nfix = nfix
        self.loops = f.loops()
        self.results = []        # (state, how)
        self.steps = 0

    # ------------------------------------------------------------------ values
    def val(self, st, v):
        v = str(v)
        c = self.f.const(v)
        if c is not None:
            return F(c)
        if v in st.env:
            return st.env[v]
        if v == self.cont:
            return ('C',)
        if v == self.arch:
            return ('AR',)
        if v.startswith('ce:'):
            _, off, base = v.split(':', 2)
            b = self.val(st, base)
            return ('ptr', b, int(off)) if b is not None else None
        d = self.f.defs.get(v)
        if d is not None and d.op == 'alloca':
            return ('loc', v, 0)
        return None

    def offset(self, p, off):
        if p is None:
            return None
        if p[:1] == ('loc',):
            return ('loc', p[1], p[2] + off)
        if p[:1] == ('elem',):
            return ('elem', p[1], p[2] + off)
        if p[:1] == ('C',):
            return ('C',) if not off else ('Cfield', off)
        return None

    def run(self):
        st = State()
        st.cur = sym('s0')
        self.walk(st, 0, None, None)
        return self.results

    def walk(self, st, bi, prev, loop):
        """loop: (header, body) while summarising one iteration; yields iteration ends into self.iters"""
        stack = [(st, bi, prev)]
        while stack:
            st, bi, prev = stack.pop()
            self.steps += 1
            if self.steps > BUDGET:
                raise Unknown('too many paths')
            if loop and bi == loop[0] and prev is not None:
                self.phis(st, bi, prev)
                self.iters.append(('again', st, prev))
                continue
            if loop and bi not in loop[1]:
                self.iters.append(('exit', st, (prev, bi)))
                continue
            if bi in self.loops and not (loop and bi == loop[0]):
                for s2, frm, to in self.summarise(st, bi, prev):
                    stack.append((s2, to, frm))
                continue
            if not (loop and bi == loop[0]):
                self.phis(st, bi, prev)
            stack.extend(self.block(st, bi))

    def phis(self, st, bi, prev):
        new = {}
        for i in self.f.blocks[bi]:
            if i.op != 'phi':
                break
            k = i.d['in'].index(prev)
            new[i.id] = self.val(st, i.ops[k])
        st.env.update(new)

    def block(self, st, bi):
        for i in self.f.blocks[bi]:
            if i.op == 'phi':
                continue
            if i.op == 'ret':
                self.results.append(st)
                return []
            if i.op in ('resume', 'unreachable'):
                return []
            if i.op == 'br':
                return self.branch(st, i, bi)
            if i.op == 'switch':
                raise Unknown('switch')
            self.step(st, i)
            if i.op == 'invoke':
                return [(st, i.d['normal'], bi)]
        return []

    def branch(self, st, i, bi):
        if len(i.d['succ']) == 1:
            return [(st, i.d['succ'][0], bi)]
        c = self.val(st, i.ops[0])
        a, b = i.d['succ']
        k = cst(c) if c is not None and isform(c) else None
        if k is not None:
            return [(st, a if k & 1 else b, bi)]
        if isinstance(c, tuple) and c[:1] == ('good',):
            # a failed archive: the rest of the transfer does not matter
            to = a if c[1] else b
            other = b if c[1] else a
            s2 = st.copy()
            s2.ev.append(('badarchive',))
            return [(st, to, bi), (s2, other, bi)]
        out = []
        for taken, to in ((True, a), (False, b)):
            s2 = st.copy()
            if isinstance(c, tuple) and c[:1] == ('cmp',):
                s2.ev.append(('cond', c, taken, bi))
                self.learn(s2, c, taken)
            else:
                s2.ev.append(('cond', None, taken, bi))
            out.append((s2, to, bi))
        return out

    def learn(self, st, c, taken):
        _, p, l, r = c
        if not taken:
            p = neg(p)
        if p in ('ult', 'slt'):
            st.facts.append(lin(lin(r, l, -1), F(1), -1))
        elif p in ('ule', 'sle'):
            st.facts.append(lin(r, l, -1))
        elif p in ('ugt', 'sgt'):
            st.facts.append(lin(lin(l, r, -1), F(1), -1))
        elif p in ('uge', 'sge'):
            st.facts.append(lin(l, r, -1))
        elif p == 'eq':
            st.facts.append(lin(l, r, -1))
            st.facts.append(lin(r, l, -1))

    def nonneg(self, st, f):
        if not isform(f):
            return False
        if all(v >= 0 for k, v in f):
            return True
        for x in st.facts:
            if x is not None and all(v >= 0 for k, v in lin(f, x, -1)):
                return True
        return False

    # ------------------------------------------------------------------- loops
    def arbitrary_exit(self, h):
        """an exit of the loop taken when something reaches a fixed number"""
        f = self.f
        for b in self.loops[h]:
            t = f.blocks[b][-1]
            if t.op != 'br' or not t.ops or all(x in self.loops[h] for x in t.d['succ']):
                continue
            d = f.defs.get(t.ops[0])
            if d is not None and d.op == 'icmp' and any((f.const(o) or 0) >= 2 for o in d.ops):
                return t.where()
        return None

    def summarise(self, st, h, prev):
        body = self.loops[h]
        if any(x != h and x in body for x in self.loops):
            # an inner loop: only understood when it has no effect of its own
            raise Unknown('nested loop')
        f = self.f
        base = st.copy()
        self.phis(base, h, prev)
        pre = base.copy()
        ks = {}
        for i in f.blocks[h]:
            if i.op != 'phi':
                break
            ks[i.id] = ('k', h, i.id)
        # cells written inside the loop
        cells = set()
        for b in body:
            for i in f.blocks[b]:
                if i.op == 'store':
                    p = f.path(i.ops[1])
                    if f.root_is_local(p[0]):
                        cells.add((p[0], p[1]))
                elif i.iscall:
                    for o in i.ops:
                        if isptr(o):
                            p = f.path(o)
                            if f.root_is_local(p[0]):
                                cells.add((p[0], p[1]))
        it = base.copy()
        it.ev = []
        for k, s in ks.items():
            it.env[k] = sym(s)
        for c in cells:
            if c in it.mem and isform(it.mem[c]):
                ks[c] = ('k', h) + c
                it.mem[c] = sym(ks[c])
            else:
                it.mem.pop(c, None)
        it.cur = sym(('cur', h))
        saved = getattr(self, 'iters', None)
        self.iters = []
        self.walk(it, h, None, (h, body))
        iters = self.iters
        self.iters = saved
        agains = [x for x in iters if x[0] == 'again' and ('badarchive',) not in x[1].ev]
        exits = [x for x in iters if x[0] == 'exit' and ('badarchive',) not in x[1].ev]
        if not agains or not exits:
            raise Unknown('loop at block %d has no regular iteration' % h)
        # growth of the container per iteration must be the same on every path
        deltas = set(lin(x[1].cur, sym(('cur', h)), -1) for x in agains)
        if len(deltas) != 1 or cst(list(deltas)[0]) is None:
            raise Unknown('container size changes irregularly in a loop')
        delta = cst(deltas.pop())
        upd = {}
        for k, s in ks.items():
            vs = set()
            for x in agains:
                v = x[1].env.get(k) if isinstance(k, str) else x[1].mem.get(k)
                vs.add(lin(v, sym(s), -1) if isform(v) else None)
            upd[k] = vs.pop() if len(vs) == 1 else None
            if upd[k] is not None and cst(upd[k]) is None:
                upd[k] = None
        if len(exits) != 1:
            # exits with the same condition only
            if len(set(tuple(e for e in x[1].ev if e[0] == 'cond')[-1:] for x in exits)) != 1:
                e = Unknown('loop with several exits')
                e.early = self.arbitrary_exit(h)
                raise e
        ex = exits[0]
        conds = [e for e in ex[1].ev if e[0] == 'cond']
        evs = [e for e in ex[1].ev if e[0] != 'cond']
        if not conds or conds[-1][1] is None or len(conds) != 1:
            raise Unknown('loop exit condition not understood')
        if evs:
            raise Unknown('loop is left after an effect')
        _, c, taken, blk = conds[-1]
        _, p, l, r = c
        if taken:
            p = neg(p)            # condition under which the loop goes on
        # substitute the induction symbols and the container size
        inv = {}
        for k, s in ks.items():
            start = pre.env.get(k) if isinstance(k, str) else pre.mem.get(k)
            inv[s] = (start, cst(upd[k]) if upd[k] is not None else None)
        inv[('cur', h)] = (pre.cur, delta)

        def split(x):
            g0, d = F(0), 0
            for s, v in x:
                if s in inv:
                    a, b = inv[s]
                    if a is None or b is None or not isform(a):
                        raise Unknown('loop counter not understood')
                    g0 = lin(g0, tuple((kk, vv * v) for kk, vv in a))
                    d += b * v
                else:
                    g0 = lin(g0, ((s, v),))
            return g0, d
        l0, ld = split(l)
        r0, rd = split(r)
        g0 = lin(l0, r0, -1)
        d = ld - rd
        if d == 0:
            raise Unknown('loop condition does not change')
        if p in ('ult', 'slt') and d == 1:
            trips = lin(F(0), g0, -1)
        elif p in ('ule', 'sle') and d == 1:
            trips = lin(F(1), g0, -1)
        elif p == 'ne' and abs(d) == 1:
            trips = g0 if d == -1 else lin(F(0), g0, -1)
        elif p in ('ugt', 'sgt') and d == -1:
            trips = g0
        elif p == 'sge' and d == -1:
            trips = lin(g0, F(1))
        else:
            raise Unknown('loop condition not understood')
        sure = self.nonneg(pre, trips)
        # what one iteration does, with elements relative to the iteration number
        seqs = []
        for x in agains:
            seqs.append(tuple(self.rel(e, split) for e in x[1].ev if e[0] not in ('cond',)))
        out = pre.copy()
        out.ev.append(('loop', trips, sure, tuple(sorted(set(seqs), key=str)), pre.cur, delta, h))
        out.cur = lin(pre.cur, tuple((k, v * delta) for k, v in trips)) if delta else pre.cur
        for k, s in ks.items():
            u = upd[k]
            start = pre.env.get(k) if isinstance(k, str) else pre.mem.get(k)
            fin = None
            if u is not None and isform(start):
                fin = lin(start, tuple((kk, vv * cst(u)) for kk, vv in trips))
            if isinstance(k, str):
                out.env[k] = fin
            else:
                out.mem[k] = fin
        for c in cells:
            if c not in ks:
                out.mem.pop(c, None)
        # values defined before the exit test in the header are recomputed by nobody; drop them
        for b in body:
            for i in f.blocks[b]:
                if i.op != 'phi':
                    out.env.pop(i.id, None)
        res = []
        for to in sorted(set(x[2] for x in exits)):
            res.append((out.copy(), to[0], to[1]))
        return res

    def rel(self, e, split):
        def r(x):
            if isinstance(x, tuple) and x[:1] == ('elem',):
                try:
                    a, d = split(x[1])
                except Unknown:
                    return ('elem', None, None, x[2])
                return ('elem', a, d, x[2])
            if isinstance(x, tuple) and x[:1] == ('val',):
                return ('val', r(x[1]))
            if isinstance(x, tuple) and x[:1] == ('copy',):
                return ('copy', r(x[1]))
            if isinstance(x, tuple) and x[:1] == ('loc',) and len(x) > 3:
                return x[:3] + (r(x[3]),)
            return x
        return tuple(r(x) for x in e)

    # -------------------------------------------------------------- instructions
    def step(self, st, i):
        f, op = self.f, i.op
        if i.iscall:
            return self.call(st, i)
        if op == 'alloca':
            return
        if op == 'store':
            p = f.path(i.ops[1])
            if f.root_is_local(p[0]):
                v = self.val(st, i.ops[0])
                st.mem[(p[0], p[1])] = v
            else:
                q = self.val(st, i.ops[1])
                if q is not None and q[:1] == ('elem',):
                    st.ev.append(('put', q, self.val(st, i.ops[0])))
                elif q is not None and q[0] in ('C', 'Cfield'):
                    raise Unknown('container written directly')
            return
        if op == 'load':
            p = f.path(i.ops[0])
            if f.root_is_local(p[0]):
                st.env[i.id] = st.mem.get((p[0], p[1]))
                return
            q = self.val(st, i.ops[0])
            if q is not None and q[:1] == ('elem',):
                st.env[i.id] = ('val', q)
                return
            if q == ('C',):
                st.env[i.id] = ('data',)
                return
            st.env[i.id] = None
            return
        if op == 'getelementptr':
            b = self.val(st, i.ops[0])
            off = i.d.get('off', 0)
            var = i.d.get('var', [])
            if not var:
                st.env[i.id] = self.offset(b, off)
                return
            if len(var) == 1 and b is not None:
                ix = self.val(st, var[0][0])
                if isform(ix) and (b == ('data',) or (b == ('C',) and self.nfix is not None)):
                    st.env[i.id] = ('elem', ix, off)
                    return
                if isform(ix) and b[:1] == ('elem',) and var[0][1] == 1:
                    st.env[i.id] = ('elem', lin(b[1], ix), b[2])
                    return
            st.env[i.id] = None
            return
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            st.env[i.id] = self.val(st, i.ops[0])
            return
        if op in ('add', 'sub'):
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if isform(a) and isform(b) and a is not None and b is not None:
                st.env[i.id] = lin(a, b, 1 if op == 'add' else -1)
            else:
                st.env[i.id] = None
            return
        if op == 'icmp':
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if isinstance(a, tuple) and a[:1] in (('good',), ('cmp',)) and b == F(0) and i.d['p'] in ('ne', 'eq'):
                st.env[i.id] = a if i.d['p'] == 'ne' else self.flip(a)
                return
            if a is not None and b is not None and isform(a) and isform(b):
                st.env[i.id] = ('cmp', i.d['p'], a, b)
                return
            st.env[i.id] = None
            return
        if op == 'xor':
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if isinstance(a, tuple) and a[:1] in (('good',), ('cmp',)) and cst(b) in (1, -1):
                st.env[i.id] = self.flip(a)
                return
            st.env[i.id] = None
            return
        if op == 'select':
            c, a, b = (self.val(st, o) for o in i.ops)
            if isinstance(c, tuple) and c[:1] == ('cmp',) and isform(a) and isform(b):
                _, p, l, r = c
                lo = None
                if p in ('ult', 'ule', 'slt', 'sle'):
                    lo = (l, r)
                elif p in ('ugt', 'uge', 'sgt', 'sge'):
                    lo = (r, l)
                if lo is not None and (a, b) == lo:
                    m = sym(('min', l, r) if str(l) < str(r) else ('min', r, l))
                    st.facts.append(lin(l, m, -1))
                    st.facts.append(lin(r, m, -1))
                    st.env[i.id] = m
                    return
            if isinstance(c, tuple) and c[:1] == ('good',):
                # the safe_bool idiom: a member pointer or null
                if i.ops[2] in ('zero', 'null', 'c:0'):
                    st.env[i.id] = c
                    return
                if i.ops[1] in ('zero', 'null', 'c:0'):
                    st.env[i.id] = self.flip(c)
                    return
            st.env[i.id] = None
            return
        if op == 'extractvalue':
            v = self.val(st, i.ops[0])
            st.env[i.id] = v
            return
        st.env[i.id] = None

    def flip(self, a):
        if a[0] == 'good':
            return ('good', 1 - a[1])
        return ('cmp', neg(a[1]), a[2], a[3])

    GOOD = {'good': 1, 'fail': 0, 'operator!': 0, 'operator bool': 1, 'bad': 0, 'eof': 0}

    def call(self, st, i):
        f = self.f
        n = i.dem or ''
        callee = i.callee or ''
        if callee.startswith('llvm.') or n.startswith('llvm.'):
            if 'memcpy' in n or 'memmove' in n:
                d, s = f.path(i.ops[0]), f.path(i.ops[1])
                if f.root_is_local(d[0]):
                    for c in list(st.mem):
                        if c[0] == d[0]:
                            st.mem.pop(c)
                    if f.root_is_local(s[0]):
                        for c in list(st.mem):
                            if c[0] == s[0]:
                                st.mem[(d[0], c[1] - s[1] + d[1])] = st.mem[c]
            return
        m = self.TR.search(n)
        if m:
            if m.group(2):
                p = self.val(st, i.ops[0])
                st.ev.append(('tr', m.group(2), self.content(st, p), i.where()))
                if self.dir == 'r' and p and p[:1] == ('loc',):
                    st.mem[('obj', p[1])] = ('read', i.id)
            else:
                t = m.group(4).strip()
                if self.dir == 'w':
                    v = self.val(st, i.ops[1])
                    st.ev.append(('tr', t, v, i.where()))
                else:
                    p = self.val(st, i.ops[1])
                    st.ev.append(('tr', t, p, i.where()))
                    if p and p[:1] == ('loc',):
                        c = (p[1], p[2])
                        if 'counted' not in st.mem:
                            st.mem['counted'] = True
                            st.mem[c] = sym('n')
                        else:
                            st.mem[c] = ('readval', i.id)
            return
        base = re.sub(r'<[^<>]*>', '', n)
        while '<' in base and re.search(r'<[^<>]*>', base):
            base = re.sub(r'<[^<>]*>', '', base)
        base = base.split('(')[0] if not base.endswith('operator()') else base
        meth = base.rsplit('::', 1)[-1].strip()
        if 'operator' in n and 'operator' not in meth:
            mm = re.search(r'operator ?(\W+?|\w+)\(', n)
            meth = 'operator' + (mm.group(1) if mm else '')
        mm = re.search(r'operator(\[\]|!=|==|\+\+|--|\*|->|!|=|<<|>>|\(\))', n)
        if mm:
            meth = 'operator' + mm.group(1)
        if 'std::basic_ios<' in n or n.startswith('std::basic_ios'):
            for k, v in self.GOOD.items():
                if meth == k or (k == 'operator bool' and 'operator bool' in n):
                    st.env[i.id] = ('good', v)
                    return
        args = [self.val(st, o) for o in i.ops]
        if any(a == ('C',) or (isinstance(a, tuple) and a[:1] == ('Cfield',)) for a in args):
            return self.contcall(st, i, meth, n, args)
        # iterators held in locals
        if meth in ('operator!=', 'operator==') and len(args) >= 2:
            a, b = self.deref(st, args[0]), self.deref(st, args[1])
            if isform(a) and isform(b) and a is not None and b is not None:
                st.env[i.id] = ('cmp', 'ne' if meth == 'operator!=' else 'eq', a, b)
                return
        if meth in ('operator++', 'operator--') and args:
            post = '(int)' in n
            k = 0
            if len(args) > (2 if post else 1) and args[0] and args[0][:1] == ('loc',) and args[1] and args[1][:1] == ('loc',):
                k = 1      # result slot first
            p = args[k]
            if p and p[:1] == ('loc',):
                v = st.mem.get((p[1], p[2]))
                if isform(v) and v is not None:
                    st.mem[(p[1], p[2])] = lin(v, F(1), 1 if meth == 'operator++' else -1)
                    if post:
                        if k == 1:
                            st.mem[(args[0][1], args[0][2])] = v
                        else:
                            st.env[i.id] = v
                    else:
                        st.env[i.id] = p
                    return
        if meth in ('operator*', 'operator->') and args:
            v = self.deref(st, args[0])
            if isform(v) and v is not None:
                st.env[i.id] = ('elem', v, 0)
                return
        # copies of elements into locals
        if len(args) >= 2 and args[0] and args[0][:1] == ('loc',) and args[1] is not None and args[1][:1] in (('elem',), ('loc',)) \
                and re.search(r'::(\w+)(<.*>)?::~?\1|::pair|::operator=', n.split('(')[0]) and not callee.startswith('~'):
            st.mem[('obj', args[0][1])] = ('copy', self.content(st, args[1]))
            if args[1][:1] == ('loc',):
                v = st.mem.get((args[1][1], args[1][2]))
                if v is not None and isform(v):
                    st.mem[(args[0][1], args[0][2])] = v
            return
        # anything else may change the locals it is given
        for o, a in zip(i.ops, args):
            if a and a[:1] == ('loc',):
                for c in list(st.mem):
                    if c[0] == a[1]:
                        st.mem.pop(c)
                srcs = [self.content(st, b) for b in args if b is not None and b is not a and b[:1] in (('loc',), ('elem',))]
                if srcs:
                    st.mem[('obj', a[1])] = ('copy', srcs[0])
                else:
                    st.mem.pop(('obj', a[1]), None)
        st.env[i.id] = None

    def content(self, st, p):
        if p is not None and p[:1] == ('loc',):
            o = st.mem.get(('obj', p[1]))
            return ('loc', p[1], p[2]) if o is None else ('loc', p[1], p[2], o)
        return p

    def deref(self, st, p):
        if p is not None and p[:1] == ('loc',):
            return st.mem.get((p[1], p[2]))
        return p if p is not None and isform(p) else None

    def contcall(self, st, i, meth, n, args):
        sret = args[0] is not None and args[0][:1] == ('loc',) and len(args) > 1 and args[1] == ('C',)
        a = args[1:] if sret else args
        raw = i.ops[1:] if sret else i.ops

        def give(v):
            if sret:
                st.mem[(args[0][1], args[0][2])] = v
            else:
                st.env[i.id] = v
        if a[0] == ('C',):
            if meth in ('size', 'length'):
                return give(st.cur)
            if meth == 'empty':
                return give(('cmp', 'eq', st.cur, F(0)))
            if meth == 'clear':
                st.cur = F(0)
                st.ev.append(('clear',))
                return
            if meth == 'resize':
                v = a[1] if len(a) > 1 else None
                if v is None or not isform(v):
                    raise Unknown('resize to an unknown size')
                st.cur = v
                return
            if meth in ('reserve', 'capacity', 'max_size', 'get_allocator', 'rehash', 'bucket_count', 'shrink_to_fit'):
                return give(None)
            if meth in ('begin', 'cbegin'):
                return give(F(0))
            if meth in ('end', 'cend'):
                return give(st.cur)
            if meth in ('operator[]', 'at') and len(a) > 1 and isform(a[1]) and a[1] is not None:
                return give(('elem', a[1], 0))
            if meth == 'back':
                return give(('elem', lin(st.cur, F(1), -1), 0))
            if meth == 'front':
                return give(('elem', F(0), 0))
            if meth in ('data', 'c_str'):
                return give(('data',))
            if meth in ('push_back', 'insert', 'emplace_back', 'emplace', 'push_front', 'emplace_front'):
                src = [self.content(st, x) for x in a[1:] if x is not None and (x[:1] == ('loc',) or x[:1] == ('elem',)) and not (
                    x[:1] == ('loc',) and isform(st.mem.get((x[1], x[2]))) and st.mem.get((x[1], x[2])) is not None and meth in ('insert', 'emplace'))]
                if not src:
                    vals = [x for x in a[1:] if x is not None]
                    src = vals[-1:]
                if meth in ('insert', 'emplace') and len(a) > 2 and re.match(r'std::(vector|deque|list)<', n.split('operator')[0].split(' ', 1)[-1] if not n.startswith('std::') else n):
                    pos = self.deref(st, a[1])
                    if pos is None or not isform(pos):
                        meth = 'insert?'
                    elif pos == st.cur:
                        meth = 'insert_end'
                    elif pos == F(0):
                        meth = 'insert_front'
                    else:
                        meth = 'insert?'
                st.ev.append(('ins', meth, src[-1] if src else None, i.where()))
                st.cur = lin(st.cur, F(1))
                give(None)
                return
        raise Unknown('container passed to %s' % n[:80])

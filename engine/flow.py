"""Dataflow over two exact domains at once, with loops summarised per iteration.

Data values are vectors of bits, every bit a boolean function of ONE input byte (a 256-bit truth table) or a constant; path conditions restrict
the set of values each input byte can have.  Index values are linear forms.  A loop whose test is not a constant is summarised by walking one
generic iteration (number t); its counters become start + step*t.

Values:  int | ('B', bits) | ('F', form) | ('P', root, form) pointer to element `form` of `root` | ('L', alloca, off) | ('O', name) opaque | None
Bits:    0 | 1 | ('f', sym, mask)
"""
import re
from pfa import *

FULL = (1 << 256) - 1
BITMASK = []
for _k in range(8):
    m = 0
    for _v in range(256):
        if _v >> _k & 1:
            m |= 1 << _v
    BITMASK.append(m)


class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


def fresh(sym):
    return ('B', tuple(('f', sym, BITMASK[k]) for k in range(8)))


def wide(sym, w):
    if w <= 8:
        return ('B', fresh(sym)[1][:w])
    out = ()
    for j in range(w // 8):
        out += fresh((sym, j))[1]
    return ('B', out)


# ------------------------------------------------------------------ linear forms
def form(c=0, **kw):
    d = dict(kw)
    d[1] = c
    return nf(d)


def nf(d):
    return tuple(sorted(((k, v) for k, v in d.items() if v), key=str))


def fadd(a, b, m=1):
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + m * v
    return nf(d)


def fmul(a, c):
    return nf(dict((k, v * c) for k, v in a))


def fsym(s):
    return ((s, 1),)


def fconst(a):
    if a == ():
        return 0
    if len(a) == 1 and a[0][0] == 1:
        return a[0][1]
    return None


def fshow(a):
    out = []
    for k, v in a:
        if k == 1:
            out.append(str(v))
        else:
            n = k if isinstance(k, str) else '.'.join(str(x) for x in k)
            out.append(n if v == 1 else '%d*%s' % (v, n))
    return ' + '.join(out) or '0'


class St(object):
    __slots__ = ('env', 'mem', 'size', 'ev', 'facts', 'dom', 'objs', 'iter')

    def __init__(self):
        self.env, self.mem, self.size, self.ev, self.facts, self.dom, self.objs, self.iter = {}, {}, {}, [], [], {}, {}, {}

    def copy(self):
        s = St()
        s.env, s.mem, s.size, s.ev, s.facts, s.dom, s.objs = dict(self.env), dict(self.mem), dict(self.size), list(self.ev), list(self.facts), dict(self.dom), dict(self.objs)
        s.iter = dict(self.iter)
        return s


def sbit(st, b):
    if b in (0, 1) or b is None:
        return b
    if b[0] == 'm':
        p, q = sbit(st, b[2]), sbit(st, b[3])
        return b if (p, q) == (b[2], b[3]) else bitop(st, b[1], p, q)
    d = st.dom.get(b[1], FULL)
    if b[2] & d == 0:
        return 0
    if b[2] & d == d:
        return 1
    return b


def unk(bits):
    return any(b is None or (isinstance(b, tuple) and b[0] == 'm') for b in bits)


def bitop(st, op, p, q):
    if op == 'and':
        if p == 0 or q == 0:
            return 0
        if p == 1:
            return q
        if q == 1:
            return p
    elif op == 'or':
        if p == 1 or q == 1:
            return 1
        if p == 0:
            return q
        if q == 0:
            return p
    else:
        if p == 0:
            return q
        if q == 0:
            return p
        if p is None or q is None:
            return None
        if p == 1:
            p, q = q, p
        if q == 1 and p in (0, 1):
            return 1 - p
        if q == 1 and p[0] == 'f':
            return sbit(st, ('f', p[1], FULL & ~p[2]))
    if p is None or q is None or q == 1 or p[0] == 'm' or q[0] == 'm':
        return None
    if p[1] != q[1]:
        return ('m', op, p, q)       # depends on both bytes
    m = {'and': p[2] & q[2], 'or': p[2] | q[2], 'xor': p[2] ^ q[2]}[op]
    return sbit(st, ('f', p[1], m))


def bits_of(st, v, w):
    """bit tuple of width w, or None"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return tuple((v >> k) & 1 for k in range(w))
    if isinstance(v, tuple) and v[0] == 'B':
        b = tuple(sbit(st, x) for x in v[1])
        if len(b) < w:
            b = b + (0,) * (w - len(b))
        return b[:w]
    return None


def mk(bits):
    if all(b in (0, 1) for b in bits):
        r = 0
        for k, b in enumerate(bits):
            r |= b << k
        return sgn(r, len(bits)) if len(bits) > 1 else r
    return ('B', tuple(bits))


def syms(bits):
    return set(b[1] for b in bits if isinstance(b, tuple))


def values(st, bits, sym):
    """bits are functions of the single symbol sym: list of (byte, integer)"""
    d = st.dom.get(sym, FULL)
    out = []
    for v in range(256):
        if d >> v & 1:
            r = 0
            for k, b in enumerate(bits):
                if b == 1 or (isinstance(b, tuple) and b[2] >> v & 1):
                    r |= 1 << k
            out.append((v, r))
    return out


def from_values(vals, sym, w):
    masks = [0] * w
    for v, r in vals:
        for k in range(w):
            if r >> k & 1:
                masks[k] |= 1 << v
    return mk_masks(masks, sym, vals)


def mk_masks(masks, sym, vals):
    dom = 0
    for v, _ in vals:
        dom |= 1 << v
    out = []
    for m in masks:
        if m == 0:
            out.append(0)
        elif m == dom:
            out.append(1)
        else:
            out.append(('f', sym, m))
    return mk(out)


CTYPE = {
    'iscntrl': lambda c: c < 32 or c == 127, 'isdigit': lambda c: 48 <= c <= 57, 'isalpha': lambda c: 65 <= (c & 0xdf) <= 90 and c < 128,
    'isalnum': lambda c: 48 <= c <= 57 or (65 <= (c & 0xdf) <= 90 and c < 128), 'isxdigit': lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102,
    'isspace': lambda c: c in (32, 9, 10, 11, 12, 13), 'isupper': lambda c: 65 <= c <= 90, 'islower': lambda c: 97 <= c <= 122,
    'isprint': lambda c: 32 <= c < 127, 'isgraph': lambda c: 32 < c < 127, 'ispunct': lambda c: 32 < c < 127 and not (48 <= c <= 57 or 65 <= (c & 0xdf) <= 90)}
CMAP = {'toupper': lambda c: c - 32 if 97 <= c <= 122 else c, 'tolower': lambda c: c + 32 if 65 <= c <= 90 else c}


def plain(dem):
    """demangled name without template arguments and parameters"""
    out, depth = '', 0
    k = 0
    d = dem.replace('operator<<', 'operator\x01').replace('operator<', 'operator\x02').replace('operator>>', 'operator\x03').replace('operator->', 'operator\x04').replace('operator>', 'operator\x05').replace('operator()', 'operator\x06')
    while k < len(d):
        c = d[k]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            if c == '(' and not d.startswith('(anonymous namespace)', k):
                break
            out += c
        k += 1
    out = out.strip()
    if ' ' in out and not out.startswith('(anon') and 'operator' not in out:
        out = out.rsplit(' ', 1)[-1]
    elif 'operator' in out and ' ' in out.split('operator')[0]:
        pre, post = out.split('operator', 1)
        out = pre.rsplit(' ', 1)[-1] + 'operator' + post
    return out.replace('\x01', '<<').replace('\x02', '<').replace('\x03', '>>').replace('\x04', '->').replace('\x05', '>').replace('\x06', '()')


class Flow(object):
    BUDGET = 30000
    UNROLL = 70
    INPUTS = ()           # roots (arguments) that are read-only element sequences

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.loops = f.loops()
        self.results = []         # (state, kind, value): kind 'ret' | 'throw'
        self.steps = 0
        self.iters = None
        self.throwval = None

    # hooks ------------------------------------------------------------------
    def hook(self, st, i, name, args):
        """handle a call; return True when done"""
        return False

    def argval(self, a):
        """value of argument 'aN'"""
        k = int(a[1:])
        t = self.f.args[k].get('t') if k < len(self.f.args) else None
        m = re.match(r'^i(\d+)$', t or '')
        if m and int(m.group(1)) % 8 == 0:
            return wide(a, int(m.group(1)))
        return ('O', a)

    def elem_width(self, root):
        return 8

    # ------------------------------------------------------------------ values
    def val(self, st, v):
        v = str(v)
        if v in st.env:
            return st.env[v]
        c = self.f.const(v)
        if c is not None:
            return c
        if re.match(r'^a\d+$', v):
            return self.argval(v)
        if v.startswith('ce:'):
            _, off, base = v.split(':', 2)
            return self.shift(st, self.val(st, base), int(off))
        if v.startswith('g:'):
            return ('P', v, ())
        d = self.f.defs.get(v)
        if d is not None and d.op == 'alloca':
            return ('L', v, 0)
        return None

    def shift(self, st, p, off):
        if p is None:
            return None
        if p[0] == 'L':
            return ('L', p[1], p[2] + off)
        if p[0] == 'P':
            return ('P', p[1], fadd(p[2], form(off)))
        if p[0] == 'O' and off == 0:
            return p
        if p[0] == 'O':
            return ('O', (p[1], off))
        return None

    # -------------------------------------------------------------------- walk
    def run(self, st=None):
        st = st or St()
        try:
            self.walk(st, 0, None, None)
        except RecursionError:
            raise Undecided('recursion')
        return self.results

    def walk(self, st, bi, prev, loop):
        stack = [(st, bi, prev)]
        while stack:
            st, bi, prev = stack.pop()
            self.steps += 1
            if self.steps > self.BUDGET:
                raise Undecided('too many paths')
            if loop and bi == loop[0] and prev is not None:
                self.phis(st, bi, prev)
                self.iters.append(('again', st, prev))
                continue
            if loop and bi not in loop[1]:
                self.iters.append(('exit', st, (prev, bi)))
                continue
            first = loop and bi == loop[0] and prev is None
            if not first:
                self.phis(st, bi, prev)
                if bi in self.loops:
                    n = st.iter.get(bi, 0)
                    if self.concrete(st, bi, prev) and n < self.UNROLL:
                        st.iter[bi] = n + 1
                    else:
                        for s2, frm, to in self.summarise(st, bi):
                            stack.append((s2, to, frm))
                        continue
                elif prev is not None:
                    # entering from outside resets the unroll counters of loops we are not in
                    for h in list(st.iter):
                        if bi not in self.loops.get(h, ()):
                            st.iter.pop(h)
            try:
                stack.extend(self.block(st, bi))
            except Infeasible:
                pass

    def concrete(self, st, h, prev):
        """is the loop's own test a constant here?"""
        t = self.f.blocks[h][-1]
        if t.op != 'br' or len(t.d['succ']) != 2:
            return self.soft(st, h)
        d = self.f.defs.get(t.ops[0])
        if d is None:
            return False
        s = st.copy()
        try:
            for i in self.f.blocks[h]:
                if i.op in ('phi', 'br'):
                    continue
                if i.iscall:
                    if self.pure(i):
                        self.step(s, i)
                        continue
                    return False
                if i.op == 'store':
                    return False
                self.step(s, i)
        except (Undecided, Infeasible):
            return False
        return isinstance(self.val(s, t.ops[0]), int)

    def soft(self, st, h):
        return False

    def pure(self, i):
        return (i.callee or '').startswith('llvm.') or plain(i.dem or '').endswith('::size')

    def phis(self, st, bi, prev):
        new = {}
        for i in self.f.blocks[bi]:
            if i.op != 'phi':
                break
            new[i.id] = self.val(st, i.ops[i.d['in'].index(prev)])
        st.env.update(new)

    def block(self, st, bi):
        for i in self.f.blocks[bi]:
            op = i.op
            if op == 'phi':
                continue
            if op == 'ret':
                self.results.append((st, 'ret', self.val(st, i.ops[0]) if i.ops else None))
                return []
            if op in ('resume', 'unreachable'):
                return []
            if op == 'br':
                if len(i.d['succ']) == 1:
                    return [(st, i.d['succ'][0], bi)]
                return [(s, i.d['succ'][0 if t else 1], bi) for s, t in self.split(st, self.val(st, i.ops[0]), i)]
            if op == 'switch':
                return self.switch(st, i, bi)
            r = self.step(st, i)
            if r == 'throw':
                self.results.append((st, 'throw', self.throwval))
                return []
            if isinstance(r, list):
                # the call forked: [(state, ...)]
                rest = []
                for s in r:
                    rest.extend(self.resume_block(s, i, bi))
                return rest
            if op == 'invoke':
                return [(st, i.d['normal'], bi)]
        return []

    def resume_block(self, st, at, bi):
        """continue after instruction `at`"""
        if at.op == 'invoke':
            return [(st, at.d['normal'], bi)]
        saved = self.f.blocks[bi]
        k = at.idx + 1
        for i in saved[k:]:
            op = i.op
            if op == 'ret':
                self.results.append((st, 'ret', self.val(st, i.ops[0]) if i.ops else None))
                return []
            if op in ('resume', 'unreachable'):
                return []
            if op == 'br':
                if len(i.d['succ']) == 1:
                    return [(st, i.d['succ'][0], bi)]
                return [(s, i.d['succ'][0 if t else 1], bi) for s, t in self.split(st, self.val(st, i.ops[0]), i)]
            if op == 'switch':
                return self.switch(st, i, bi)
            r = self.step(st, i)
            if r == 'throw':
                self.results.append((st, 'throw', self.throwval))
                return []
            if isinstance(r, list):
                rest = []
                for s in r:
                    rest.extend(self.resume_block(s, i, bi))
                return rest
            if op == 'invoke':
                return [(st, i.d['normal'], bi)]
        return []

    def switch(self, st, i, bi):
        v = self.val(st, i.ops[0])
        out = []
        cur = [st]
        for c, to in i.d['cases']:
            nxt = []
            for s in cur:
                for s2, t in self.split(s, self.cmp(s, 'eq', v, int(c), self.width(i.ops[0])), i):
                    if t:
                        out.append((s2, to, bi))
                    else:
                        nxt.append(s2)
            cur = nxt
        out.extend((s, i.d['def'], bi) for s in cur)
        return out

    def width(self, v, default=64):
        d = self.f.defs.get(str(v))
        ty = d.ty if d is not None else None
        if ty is None and re.match(r'^a\d+$', str(v)):
            ty = self.f.args[int(str(v)[1:])].get('t')
        m = re.match(r'^i(\d+)$', ty or '')
        return int(m.group(1)) if m else default

    # ------------------------------------------------------------- conditions
    def split(self, st, c, i):
        """[(state, truth)] for condition value c"""
        if isinstance(c, int):
            return [(st, bool(c & 1))]
        if isinstance(c, tuple) and c[0] == 'B':
            b = sbit(st, c[1][0])
            if b in (0, 1):
                return [(st, bool(b))]
            if unk((b,)):
                return self.split(st, None, i)
            d = st.dom.get(b[1], FULL)
            out = []
            for m, t in ((d & b[2], True), (d & ~b[2], False)):
                if m:
                    s = st.copy()
                    s.dom[b[1]] = m
                    out.append((s, t))
            return out
        if isinstance(c, tuple) and c[0] == 'C':
            # several boxes: ('C', [(dom dict, truth)])
            out = []
            for d, t in c[1]:
                s = st.copy()
                ok = True
                for k, m in d.items():
                    m &= s.dom.get(k, FULL)
                    if not m:
                        ok = False
                        break
                    s.dom[k] = m
                if ok:
                    out.append((s, t))
            return out
        if isinstance(c, tuple) and c[0] == 'R':
            # relation between linear forms
            _, p, a = c
            k = self.decide(st, p, a)
            if k is not None:
                return [(st, k)]
            out = []
            for t in (True, False):
                s = st.copy()
                s.facts.append((p if t else NEG[p], a))
                s.ev.append(('rel', p if t else NEG[p], a))
                if self.consistent(s):
                    out.append((s, t))
            return out
        if isinstance(c, tuple) and c[0] == 'N':
            return [(s, not t) for s, t in self.split(st, c[1], i)]
        if isinstance(c, tuple) and c[0] == 'and':
            out = []
            for s, t in self.split(st, c[1], i):
                if not t:
                    out.append((s, False))
                else:
                    out.extend(self.split(s, c[2], i))
            return out
        if isinstance(c, tuple) and c[0] == 'or':
            out = []
            for s, t in self.split(st, c[1], i):
                if t:
                    out.append((s, True))
                else:
                    out.extend(self.split(s, c[2], i))
            return out
        a, b = st.copy(), st.copy()
        tag = c if isinstance(c, tuple) and c[0] == 'T' else None
        a.ev.append(('cond', tag, True, i.id))
        b.ev.append(('cond', tag, False, i.id))
        return [(a, True), (b, False)]

    def consistent(self, st):
        return True

    def decide(self, st, p, a):
        """truth of  a p 0  from the facts, or None"""
        k = fconst(a)
        if k is not None:
            return icmp({'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(p, p), k, 0)
        lo = self.lower(st, a)
        hi = self.lower(st, fmul(a, -1))
        hi = -hi if hi is not None else None
        if p in ('eq', 'ne'):
            r = None
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                r = False
            elif lo == 0 and hi == 0:
                r = True
            else:
                for q, b in st.facts:
                    if q == 'ne' and (b == a or b == fmul(a, -1)):
                        r = False
                    if q == 'eq' and (b == a or b == fmul(a, -1)):
                        r = True
            return r if p == 'eq' or r is None else (not r)
        if p in ('ult', 'slt'):
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        if p in ('ule', 'sle'):
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        if p in ('ugt', 'sgt'):
            if lo is not None and lo > 0:
                return True
            if hi is not None and hi <= 0:
                return False
        if p in ('uge', 'sge'):
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
        return None

    def symlow(self, s):
        """symbols are sizes, indices and counts: not negative"""
        return 0

    def symhigh(self, s):
        if isinstance(s, tuple) and s[0] == 'mod':
            return s[2] - 1
        return None

    def lower(self, st, a, depth=2):
        """a lower bound of form a, or None"""
        r = 0
        for k, v in a:
            if k == 1:
                r += v
            elif v > 0:
                r += v * self.symlow(k)
            else:
                h = self.symhigh(k)
                if h is None:
                    r = None
                    break
                r += v * h
        best = r
        if depth:
            for q, b in st.facts:
                bs = []
                if q in ('uge', 'sge'):
                    bs = [b]
                elif q in ('ugt', 'sgt'):
                    bs = [fadd(b, form(-1))]
                elif q in ('ule', 'sle'):
                    bs = [fmul(b, -1)]
                elif q in ('ult', 'slt'):
                    bs = [fadd(fmul(b, -1), form(-1))]
                elif q == 'eq':
                    bs = [b, fmul(b, -1)]
                elif q == 'ne':
                    l = self.lower(st, b, 0)
                    if l == 0:
                        bs = [fadd(b, form(-1))]
                    else:
                        l = self.lower(st, fmul(b, -1), 0)
                        if l == 0:
                            bs = [fadd(fmul(b, -1), form(-1))]
                for x in bs:
                    if not any(dict(a).get(k) for k, v in x if k != 1):
                        continue
                    l = self.lower(st, fadd(a, x, -1), depth - 1)
                    if l is not None and (best is None or l > best):
                        best = l
        return best

    def cmp(self, st, p, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return int(icmp(p, a, b, 'i%d' % w))
        if isinstance(a, int) and not (isinstance(b, tuple) and b[0] in ('N', 'and', 'or', 'R', 'C')):
            return self.cmp(st, SWAP[p], b, a, w)
        fa, fb = self.toform(a), self.toform(b)
        if fa is not None and fb is not None and not (isinstance(a, tuple) and a[0] == 'B') and not (isinstance(b, tuple) and b[0] == 'B'):
            return ('R', p, fadd(fa, fb, -1))
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'P' and b[0] == 'P':
            if a[1] == b[1]:
                return ('R', p, fadd(a[2], b[2], -1))
            return None
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'L' and b[0] == 'L' and a[1] == b[1]:
            return int(icmp(p.replace('u', 's') if p not in ('eq', 'ne') else p, a[2], b[2], 'i64'))
        if isinstance(a, tuple) and a[0] in ('R', 'C', 'N', 'and', 'or', 'T') and isinstance(b, int) and p in ('eq', 'ne'):
            if b == 0:
                return a if p == 'ne' else self.neg(a)
            if b in (1, -1):
                return a if p == 'eq' else self.neg(a)
        if isinstance(a, tuple) and a[0] == 'B' and isinstance(b, int):
            return self.cmpbits(st, p, a, b, w)
        if isinstance(a, tuple) and a[0] == 'B' and isinstance(b, tuple) and b[0] == 'B':
            x, y = bits_of(st, a, w), bits_of(st, b, w)
            if x is not None and y is not None:
                if x == y and p in ('eq', 'ule', 'uge', 'sle', 'sge'):
                    return 1
                if x == y:
                    return 0
                sy = syms(x) | syms(y)
                if len(sy) == 1 and not unk(x) and not unk(y):
                    s = list(sy)[0]
                    va, vb = values(st, x, s), values(st, y, s)
                    return from_values([(v, int(icmp(p, sgn(q, w), sgn(r, w), 'i%d' % w))) for (v, q), (_, r) in zip(va, vb)], s, 1)
        return None

    def neg(self, c):
        if isinstance(c, int):
            return 1 - (c & 1)
        if isinstance(c, tuple) and c[0] == 'R':
            return ('R', NEG[c[1]], c[2])
        if isinstance(c, tuple) and c[0] == 'C':
            return ('C', [(d, not t) for d, t in c[1]])
        if isinstance(c, tuple) and c[0] == 'N':
            return c[1]
        if isinstance(c, tuple) and c[0] == 'B' and len(c[1]) == 1 and unk(c[1]):
            return None
        if isinstance(c, tuple) and c[0] == 'B' and len(c[1]) == 1 and isinstance(c[1][0], tuple):
            b = c[1][0]
            return ('B', (('f', b[1], FULL & ~b[2]),))
        if c is None:
            return None
        return ('N', c)

    def cmpbits(self, st, p, a, c, w):
        """compare a bit vector with a constant -> value (bit, constant or boxes)"""
        bits = list(bits_of(st, a, w))
        if unk(bits):
            if p in ('eq', 'ne'):
                for k, b in enumerate(bits):
                    if b in (0, 1) and b != (c >> k) & 1:
                        return int(p == 'ne')
            return None
        cb = [(c >> k) & 1 for k in range(w)]
        if p in ('slt', 'sle', 'sgt', 'sge'):
            b = bits[-1]
            bits[-1] = (1 - b) if b in (0, 1) else ('f', b[1], FULL & ~b[2])
            cb[-1] = 1 - cb[-1]
            p = 'u' + p[1:]
        sy = syms(bits)
        res = {'lt': p in ('ult', 'ule', 'ne'), 'eq': p in ('eq', 'ule', 'uge'), 'gt': p in ('ugt', 'uge', 'ne')}
        if len(sy) == 1:
            s = list(sy)[0]
            cv = sum(b << k for k, b in enumerate(cb))
            return from_values([(v, int(res['lt' if r < cv else 'gt' if r > cv else 'eq'])) for v, r in values(st, bits, s)], s, 1)
        # lexicographic over runs of bits that depend on the same byte
        boxes = []

        def go(k, dom):
            # skip equal constants
            while k >= 0:
                b = bits[k]
                if isinstance(b, tuple):
                    d = dom.get(b[1], st.dom.get(b[1], FULL))
                    if not b[2] & d:
                        b = 0
                    elif b[2] & d == d:
                        b = 1
                if b in (0, 1):
                    if b != cb[k]:
                        boxes.append((dom, res['gt' if b else 'lt']))
                        return
                    k -= 1
                    continue
                break
            if k < 0:
                boxes.append((dom, res['eq']))
                return
            s = bits[k][1]
            j = k
            while j >= 0 and (bits[j] in (0, 1) or bits[j][1] == s):
                j -= 1
            run = bits[j + 1:k + 1]
            cv = sum(b << n for n, b in enumerate(cb[j + 1:k + 1]))
            d = dom.get(s, st.dom.get(s, FULL))
            parts = {'lt': 0, 'eq': 0, 'gt': 0}
            for v in range(256):
                if d >> v & 1:
                    r = 0
                    for n, b in enumerate(run):
                        if b == 1 or (isinstance(b, tuple) and b[2] >> v & 1):
                            r |= 1 << n
                    parts['lt' if r < cv else 'gt' if r > cv else 'eq'] |= 1 << v
            for q in ('lt', 'gt'):
                if parts[q]:
                    dd = dict(dom)
                    dd[s] = parts[q]
                    boxes.append((dd, res[q]))
            if parts['eq']:
                dd = dict(dom)
                dd[s] = parts['eq']
                go(j, dd)
        go(w - 1, {})
        if all(t for _, t in boxes):
            return 1
        if not any(t for _, t in boxes):
            return 0
        return ('C', boxes)

    def toform(self, v):
        if isinstance(v, bool):
            return None
        if isinstance(v, int):
            return form(v)
        if isinstance(v, tuple) and v[0] == 'F':
            return v[1]
        return None

    # ------------------------------------------------------------ instructions
    def step(self, st, i):
        op = i.op
        if i.iscall:
            return self.call(st, i)
        if op == 'alloca':
            return
        if op == 'store':
            return self.store(st, i)
        if op == 'load':
            st.env[i.id] = self.load(st, i)
            return
        if op == 'getelementptr':
            p = self.val(st, i.ops[0])
            p = self.shift(st, p, i.d.get('off', 0)) if p is not None else None
            for v, sc in i.d.get('var', []):
                x = self.val(st, v)
                if p is None:
                    break
                if p[0] == 'P' and isinstance(x, tuple) and x[0] == 'B' and p[1].startswith('g:'):
                    w = len(x[1])
                    st.env[i.id] = ('X', p[1], p[2], x, sc)
                    return
                fx = self.toform(x)
                if fx is None:
                    p = None
                elif p[0] == 'L':
                    k = fconst(fx)
                    p = ('L', p[1], p[2] + k * sc) if k is not None else None
                elif p[0] == 'P':
                    p = ('P', p[1], fadd(p[2], fmul(fx, sc)))
                else:
                    p = None
            st.env[i.id] = p
            return
        if op in ('zext', 'sext', 'trunc'):
            v = self.val(st, i.ops[0])
            m = re.match(r'^i(\d+)$', i.ty or '')
            w = int(m.group(1)) if m else 64
            m = re.match(r'^i(\d+)$', i.d.get('st', ''))
            sw = int(m.group(1)) if m else self.width(i.ops[0])
            if isinstance(v, int):
                if op == 'zext':
                    st.env[i.id] = v & ((1 << sw) - 1)
                elif op == 'trunc':
                    st.env[i.id] = sgn(v, w) if w > 1 else v & 1
                else:
                    st.env[i.id] = sgn(v, sw) if sw > 1 else -(v & 1)
                return
            if isinstance(v, tuple) and v[0] == 'B':
                b = bits_of(st, v, sw)
                if op == 'trunc':
                    b = b[:w]
                elif op == 'zext':
                    b = b + (0,) * (w - sw)
                else:
                    b = b + (b[-1],) * (w - sw)
                st.env[i.id] = mk(b)
                return
            st.env[i.id] = v
            return
        if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            st.env[i.id] = self.val(st, i.ops[0])
            return
        if op == 'extractvalue':
            v = self.val(st, i.ops[0])
            if isinstance(v, tuple) and v[0] == 'S' and len(i.d.get('ix', [])) == 1:
                st.env[i.id] = dict(v[1]).get(i.d['ix'][0])
            else:
                st.env[i.id] = v if i.d.get('ix') == [0] else None
            return
        if op == 'insertvalue':
            st.env[i.id] = None
            return
        if op == 'icmp':
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            m = re.match(r'^i(\d+)$', i.d.get('st', ''))
            st.env[i.id] = self.cmp(st, i.d['p'], a, b, int(m.group(1)) if m else 64) if a is not None and b is not None else None
            return
        if op == 'select':
            c, a, b = (self.val(st, o) for o in i.ops)
            if isinstance(c, int):
                st.env[i.id] = a if c & 1 else b
                return
            if i.ty == 'i1' and c is not None:
                if b == 0:
                    st.env[i.id] = self.both(st, c, a)
                    return
                if a == 1:
                    n = self.both(st, self.neg(c), self.neg(b)) if b is not None else None
                    st.env[i.id] = self.neg(n) if n is not None else None
                    return
            if isinstance(c, tuple) and c[0] == 'B' and not unk(c[1]) and isinstance(c[1][0], tuple):
                w = self.width(i.id)
                x, y = bits_of(st, a, w), bits_of(st, b, w)
                if x is not None and y is not None and not unk(x) and not unk(y):
                    s = c[1][0][1]
                    if syms(x) | syms(y) <= {s}:
                        va, vb = dict(values(st, x, s)), dict(values(st, y, s))
                        st.env[i.id] = from_values([(v, va[v] if c[1][0][2] >> v & 1 else vb[v]) for v in va], s, w)
                        return
            # fork
            out = []
            for s2, t in self.split(st, c, i):
                s2.env[i.id] = a if t else b
                out.append(s2)
            if len(out) == 1:
                st.env, st.dom, st.facts, st.ev = out[0].env, out[0].dom, out[0].facts, out[0].ev
                return
            return out
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'urem', 'srem', 'udiv', 'sdiv'):
            m = re.match(r'^i(\d+)$', i.ty or '')
            w = int(m.group(1)) if m else 64
            st.env[i.id] = self.arith(st, op, self.val(st, i.ops[0]), self.val(st, i.ops[1]), w)
            return
        st.env[i.id] = None

    def both(self, st, a, b):
        """conjunction of two truth values"""
        if a is None or b is None:
            return None
        if isinstance(a, int):
            return b if a & 1 else 0
        if isinstance(b, int):
            return a if b & 1 else 0
        if a[0] == 'B' and b[0] == 'B' and not unk(a[1]) and not unk(b[1]) and isinstance(a[1][0], tuple) and isinstance(b[1][0], tuple) and a[1][0][1] == b[1][0][1]:
            return mk((sbit(st, ('f', a[1][0][1], a[1][0][2] & b[1][0][2])),))
        return ('and', a, b)

    def arith(self, st, op, a, b, w):
        if a is None or b is None:
            return None
        if isinstance(a, int) and isinstance(b, int):
            return arith(op, a, b, w)
        if w == 1 and op in ('and', 'or', 'xor'):
            ta, tb = isinstance(a, tuple) and a[0] != 'B', isinstance(b, tuple) and b[0] != 'B'
            if ta or tb or True:
                if op == 'and':
                    return self.both(st, a, b)
                if op == 'or':
                    n = self.both(st, self.neg(a), self.neg(b))
                    return self.neg(n) if n is not None else None
                if isinstance(b, int):
                    return self.neg(a) if b & 1 else a
                if isinstance(a, int):
                    return self.neg(b) if a & 1 else b
                return None
        isb = [isinstance(x, tuple) and x[0] == 'B' for x in (a, b)]
        if not any(isb):
            if isinstance(a, tuple) and a[0] == 'P' and isinstance(b, tuple) and b[0] == 'P' and op == 'sub' and a[1] == b[1]:
                return self.wrapf(fadd(a[2], b[2], -1))
            fa, fb = self.toform(a), self.toform(b)
            if fa is None or fb is None:
                return None
            if op in ('add', 'sub'):
                return self.wrapf(fadd(fa, fb, 1 if op == 'add' else -1))
            k = fconst(fb)
            if op == 'mul':
                if k is not None:
                    return self.wrapf(fmul(fa, k))
                k = fconst(fa)
                return self.wrapf(fmul(fb, k)) if k is not None else None
            if op == 'shl' and k is not None and 0 <= k < 63:
                return self.wrapf(fmul(fa, 1 << k))
            if k is not None and k > 0 and op in ('udiv', 'urem', 'sdiv', 'srem', 'lshr', 'and'):
                if op == 'lshr':
                    k = 1 << k
                if op == 'and':
                    if k & (k + 1):
                        return None
                    k, op = k + 1, 'urem'
                # split off multiples
                rest = nf(dict((s, v) for s, v in fa if s != 1 and v % k or s == 1))
                mult = fadd(fa, rest, -1)
                c = fconst(rest)
                if c is not None and c >= 0:
                    return self.wrapf(fadd(nf(dict((s, v // k) for s, v in mult)), form(c // k))) if op in ('udiv', 'sdiv', 'lshr') else c % k
                if op in ('urem', 'srem'):
                    return ('F', fsym(('mod', fa, k)))
                return ('F', fsym(('div', fa, k)))
            return None
        x, y = bits_of(st, a, w), bits_of(st, b, w)
        if x is None or y is None:
            return None
        ky = b if isinstance(b, int) else None
        if op == 'shl' and ky is not None:
            return mk(((0,) * ky + x)[:w]) if ky < w else 0
        if op == 'lshr' and ky is not None:
            return mk((x[ky:] + (0,) * ky)[:w]) if ky < w else 0
        if op == 'ashr' and ky is not None:
            return mk((x[ky:] + (x[-1],) * ky)[:w])
        if op in ('udiv', 'urem', 'mul') and ky is not None and ky > 0 and ky & (ky - 1) == 0:
            n = ky.bit_length() - 1
            if op == 'udiv':
                return mk((x[n:] + (0,) * n)[:w])
            if op == 'urem':
                return mk(x[:n] + (0,) * (w - n))
            return mk(((0,) * n + x)[:w])
        if op in ('and', 'or', 'xor'):
            return mk([self.bit(st, op, p, q) for p, q in zip(x, y)])
        if op == 'add' and all(p == 0 or q == 0 for p, q in zip(x, y)):
            return mk([p if q == 0 else q for p, q in zip(x, y)])
        if op == 'sub' and ky is not None and all(q == 0 or p == 1 for p, q in zip(x, y)):
            return mk([0 if q else p for p, q in zip(x, y)])
        sy = syms(x) | syms(y)
        if unk(x) or unk(y):
            return None
        if len(sy) == 1:
            s = list(sy)[0]
            vx, vy = values(st, x, s), values(st, y, s)
            out = []
            for (v, p), (_, q) in zip(vx, vy):
                r = arith(op, sgn(p, w), sgn(q, w), w)
                if r is None:
                    return None
                out.append((v, r & ((1 << w) - 1)))
            return from_values(out, s, w)
        if op in ('add', 'sub') and ky is not None:
            # low zero bits of the constant leave the low part alone
            n = 0
            while n < w and not (ky >> n) & 1:
                n += 1
            if n:
                hi = self.arith(st, op, mk(x[n:]), sgn((ky & ((1 << w) - 1)) >> n, w - n), w - n)
                hb = bits_of(st, hi, w - n) if hi is not None else None
                if hb is not None:
                    return mk(x[:n] + hb)
        return None

    def wrapf(self, f):
        k = fconst(f)
        return k if k is not None else ('F', f)

    def bit(self, st, op, p, q):
        return bitop(st, op, p, q)

    # ------------------------------------------------------------------ memory
    def store(self, st, i):
        p = self.val(st, i.ops[1])
        v = self.val(st, i.ops[0])
        m = re.match(r'^i(\d+)$', i.d.get('vt', ''))
        w = int(m.group(1)) if m else 64
        if p is not None and p[0] == 'L':
            self.put(st, p[1], p[2], v, w)
            return
        self.foreign_store(st, i, p, v)

    def foreign_store(self, st, i, p, v):
        st.ev.append(('store', p, v, i.where()))

    def put(self, st, root, off, v, w):
        n = max(1, w // 8)
        for k in list(st.mem):
            if k[0] == root and k[1] + st.mem[k][1] > off and k[1] < off + n:
                # a wider non-bit cell is destroyed
                st.mem.pop(k)
        if isinstance(v, int) or (isinstance(v, tuple) and v[0] == 'B'):
            b = bits_of(st, v, w) if w % 8 == 0 else None
            if b is not None:
                for k in range(n):
                    st.mem[(root, off + k)] = (mk(b[8 * k:8 * k + 8]), 1)
                return
        st.mem[(root, off)] = (v, n)

    def get(self, st, root, off, w):
        n = max(1, w // 8)
        c = st.mem.get((root, off))
        if c is None:
            return None
        if c[1] == n and not (isinstance(c[0], int) or (isinstance(c[0], tuple) and c[0][0] == 'B')):
            return c[0]
        if n == 1:
            return c[0] if c[1] == 1 else None
        bits = ()
        for k in range(n):
            c = st.mem.get((root, off + k))
            if c is None or c[1] != 1:
                return None
            b = bits_of(st, c[0], 8)
            if b is None:
                return None
            bits += b
        return mk(bits)

    def load(self, st, i):
        p = self.val(st, i.ops[0])
        m = re.match(r'^i(\d+)$', i.ty or '')
        w = int(m.group(1)) if m else 64
        if p is None:
            return None
        if p[0] == 'L':
            return self.get(st, p[1], p[2], w)
        if p[0] == 'X':
            return self.table(st, p, w)
        if p[0] == 'Y':
            return self.lookup(st, list(p[1]), p[2], w) if isinstance(p[2], tuple) and p[2][0] == 'B' else (
                p[1][p[2]] if isinstance(p[2], int) and 0 <= p[2] < len(p[1]) else None)
        if p[0] == 'P':
            if p[1].startswith('g:'):
                k = fconst(p[2])
                return self.gload(p[1], k, w) if k is not None else None
            return self.element(st, p, w, i)
        return self.foreign_load(st, i, p)

    def foreign_load(self, st, i, p):
        return None

    def element(self, st, p, w, i):
        """element of an input sequence: fresh bits named after its position"""
        return wide((p[1], p[2]), w)

    def gbytes(self, g):
        d = self.prog.globals.get(g[2:])
        if d and d.get('init') is not None and (d.get('const') or d.get('onlyloaded')) and isinstance(d['init'], list):
            return d['init'], d.get('esz', 1)
        return None, None

    def gload(self, g, off, w):
        init, esz = self.gbytes(g)
        if init is None or off is None or off < 0 or off % esz or esz * 8 != w or off // esz >= len(init):
            return None
        return sgn(int(init[off // esz]), w)

    def table(self, st, p, w):
        _, g, base, ix, sc = p
        init, esz = self.gbytes(g)
        k = fconst(base)
        if init is None or esz * 8 != w or k is None or sc != esz:
            return None
        return self.lookup(st, [int(x) for x in init[k // esz:]], ix, w)

    def lookup(self, st, tab, ix, w):
        b = bits_of(st, ix, len(ix[1]))
        if None in b:
            return None
        if unk(b):
            return ('tab', tuple(tab), b)
        sy = syms(b)
        if len(sy) == 0:
            k = mk(b)
            return sgn(tab[k], w) if 0 <= k < len(tab) else None
        if len(sy) == 1:
            s = list(sy)[0]
            out = []
            for v, r in values(st, b, s):
                if r >= len(tab):
                    st.ev.append(('oob', s, v, r))
                    return None
                out.append((v, tab[r] & ((1 << w) - 1)))
            return from_values(out, s, w)
        n = len(b)
        while n and b[n - 1] == 0:
            n -= 1
        return ('tab', tuple(tab), b[:n])

    # ------------------------------------------------------------------- calls
    def call(self, st, i):
        name = plain(i.dem or i.callee or '')
        callee = i.callee or ''
        if callee.startswith('llvm.'):
            return self.intrinsic(st, i, callee)
        args = [self.val(st, o) for o in i.ops]
        r = self.hook(st, i, name, args)
        if r:
            return r if isinstance(r, list) or r == 'throw' else None
        if callee in ('__cxa_throw', '__cxa_rethrow'):
            self.throwval = i.ops[1] if callee == '__cxa_throw' else None
            return 'throw'
        if callee in CTYPE or callee in CMAP:
            w = 32
            b = bits_of(st, args[0], w) if args[0] is not None else None
            if b is not None and not unk(b) and len(syms(b)) <= 1:
                fn = CTYPE.get(callee) or CMAP[callee]
                if not syms(b):
                    st.env[i.id] = int(fn(mk(b) & 255))
                else:
                    s = list(syms(b))[0]
                    st.env[i.id] = from_values([(v, int(fn(r & 255)) if 0 <= sgn(r, 32) < 256 else 0) for v, r in values(st, b, s)], s, 32)
                return
            st.env[i.id] = None
            return
        if i.d.get('noret'):
            self.throwval = None
            return 'throw'
        self.unknown_call(st, i, name, args)

    def unknown_call(self, st, i, name, args):
        for a in args:
            if isinstance(a, tuple) and a[0] == 'L':
                for k in list(st.mem):
                    if k[0] == a[1]:
                        st.mem.pop(k)
        st.env[i.id] = None
        st.ev.append(('call', name, tuple(args), i.where()))

    def intrinsic(self, st, i, callee):
        if 'memset' in callee:
            p, v, n = self.val(st, i.ops[0]), self.val(st, i.ops[1]), self.val(st, i.ops[2])
            if p is not None and p[0] == 'L' and isinstance(n, int) and n <= 64:
                for k in range(n):
                    self.put(st, p[1], p[2] + k, v, 8)
                return
        if 'memcpy' in callee or 'memmove' in callee:
            d, s, n = self.val(st, i.ops[0]), self.val(st, i.ops[1]), self.val(st, i.ops[2])
            if d is not None and d[0] == 'L' and isinstance(n, int) and n <= 256:
                if s is not None and s[0] == 'L':
                    for k in list(st.mem):
                        if k[0] == d[1] and d[2] <= k[1] < d[2] + n:
                            st.mem.pop(k)
                    for k, c in list(st.mem.items()):
                        if k[0] == s[1] and s[2] <= k[1] < s[2] + n:
                            st.mem[(d[1], k[1] - s[2] + d[2])] = c
                    return
                if s is not None and s[0] == 'P' and s[1].startswith('g:'):
                    init, esz = self.gbytes(s[1])
                    k0 = fconst(s[2])
                    if init is not None and k0 is not None and k0 % esz == 0:
                        for k in range(n // esz):
                            if k0 // esz + k < len(init):
                                self.put(st, d[1], d[2] + k * esz, int(init[k0 // esz + k]), esz * 8)
                        return
        if 'bswap' in callee:
            v = self.val(st, i.ops[0])
            w = self.width(i.id)
            b = bits_of(st, v, w) if v is not None else None
            if b is not None:
                out = ()
                for k in range(w // 8 - 1, -1, -1):
                    out += b[8 * k:8 * k + 8]
                st.env[i.id] = mk(out)
                return
        if 'umin' in callee or 'umax' in callee or 'smin' in callee or 'smax' in callee or 'abs' in callee:
            st.env[i.id] = None
            return
        if i.ty and i.ty != 'void':
            st.env[i.id] = None

    # ------------------------------------------------------------------- loops
    def summarise(self, st, h):
        f, body = self.f, self.loops[h]
        pre = st.copy()
        tsym = ('t', h)
        phis = [i for i in f.blocks[h] if i.op == 'phi']
        stores = set()
        for b in body:
            for i in f.blocks[b]:
                if i.op == 'store':
                    p = f.path(i.ops[1])
                    if f.root_is_local(p[0]):
                        stores.add(p[0])
                elif i.iscall and not (i.callee or '').startswith('llvm.lifetime'):
                    for o in i.ops:
                        if isptr(o):
                            p = f.path(o)
                            if f.root_is_local(p[0]):
                                stores.add(p[0])
        steps = None
        for rnd in (0, 1):
            it = pre.copy()
            it.ev = []
            it.iter = {}
            for i in phis:
                v = pre.env.get(i.id)
                it.env[i.id] = self.generic(v, (i.id,), tsym, None if rnd == 0 else steps.get(i.id))
            for k, c in list(it.mem.items()):
                if k[0] in stores:
                    g = self.generic(c[0], k, tsym, None if rnd == 0 else steps.get(k))
                    if g is None:
                        it.mem.pop(k)
                    else:
                        it.mem[k] = (g, c[1])
            for k in list(it.size):
                it.size[k] = fsym(('sz', h, k)) if rnd == 0 or steps.get(('sz', k)) is None else fadd(pre.size[k], fmul(fsym(tsym), steps[('sz', k)]))
            self.prep(it, h, tsym)
            saved, savedres = self.iters, self.results
            self.iters, self.results = [], []
            self.walk(it, h, None, (h, body))
            iters, inner = self.iters, self.results
            self.iters, self.results = saved, savedres
            agains = [x[1] for x in iters if x[0] == 'again']
            if rnd == 0:
                steps = {}
                if not agains:
                    break
                for i in phis:
                    steps[i.id] = self.stepof(it.env[i.id], [a.env.get(i.id) for a in agains])
                for k, c in it.mem.items():
                    if k[0] in stores:
                        steps[k] = self.stepof(c[0], [a.mem.get(k, (None, 0))[0] for a in agains])
                for k in it.size:
                    ds = set(fconst(fadd(a.size[k], it.size[k], -1)) if k in a.size else None for a in agains)
                    steps[('sz', k)] = ds.pop() if len(ds) == 1 else None
        rec = dict(head=h, steps=steps, agains=agains, start=it, inner=inner, pre=pre)
        self.onloop(rec)
        out = []
        for x in iters:
            if x[0] != 'exit':
                continue
            s = x[1]
            s.ev = pre.ev + [('loop', rec)] + s.ev
            out.append((s, x[2][0], x[2][1]))
        for s, kind, v in inner:
            s.ev = pre.ev + [('loop', rec)] + s.ev
            self.results.append((s, kind, v))
        return out

    def prep(self, st, h, tsym):
        pass

    def onloop(self, rec):
        pass

    def generic(self, v, key, tsym, step):
        """value of a loop variable in iteration t"""
        if step is not None:
            d = fmul(fsym(tsym), step)
            if isinstance(v, int):
                return self.wrapf(fadd(form(v), d))
            if isinstance(v, tuple) and v[0] == 'F':
                return self.wrapf(fadd(v[1], d))
            if isinstance(v, tuple) and v[0] == 'P':
                return ('P', v[1], fadd(v[2], d))
        if isinstance(v, int):
            return ('F', fsym(('g',) + key))
        if isinstance(v, tuple) and v[0] == 'F':
            return ('F', fsym(('g',) + key))
        if isinstance(v, tuple) and v[0] == 'P':
            return ('P', v[1], fsym(('g',) + key))
        if isinstance(v, tuple) and v[0] in ('O', 'L'):
            return v
        return None

    def stepof(self, a, outs):
        ds = set()
        for b in outs:
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'P' and a[1] == b[1]:
                ds.add(fconst(fadd(b[2], a[2], -1)))
            else:
                fa, fb = self.toform(a), self.toform(b)
                ds.add(fconst(fadd(fb, fa, -1)) if fa is not None and fb is not None else None)
        return ds.pop() if len(ds) == 1 else None

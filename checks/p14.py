"""Byte order: where each output byte of the conversions comes from."""
from pfa import *
from codec import *

RULE = '''Each conversion template instance (and reverse over a buffer, for every size up to 33) is walked in the exact bit domain with every input byte symbolic and the
machine's byte order (endian::is_little / is_big, which must be complements) left open: reverse must return, bit for bit, the input bytes in opposite order, to_little and
from_little the value itself on a little-endian machine and the reversed bytes on a big-endian one, to_big and from_big the other way round.'''
ASSUME = ['floating-point instances are decided through their memory image', 'reverse(char*, int) is decided for sizes 0 to 33; larger sizes run the same loop']

LITTLE = ('endian',)


class Bytes(StrFlow):
    def __init__(self, prog, f, size=None):
        StrFlow.__init__(self, prog, f)
        self.n = size
        self.BUDGET = 100000

    def argval(self, a):
        k = int(a[1:])
        t = self.f.args[k].get('t') if k < len(self.f.args) else None
        if t == 'ptr' and k == 0:
            return ('L', 'buf', 0)
        if k == 1 and self.n is not None:
            return self.n
        if t in ('float', 'double'):
            return wide(a, 32 if t == 'float' else 64)
        return StrFlow.argval(self, a)

    def val(self, st, v):
        if v in ('undef', 'poison'):
            return wide('undef', 64)
        return StrFlow.val(self, st, v)

    def gload(self, g, off, w):
        if g.endswith('6endian9is_littleE') and w == 8:
            return ('B', (fresh(LITTLE)[1][0],) + (0,) * 7)
        if g.endswith('6endian6is_bigE') and w == 8:
            b = fresh(LITTLE)[1][0]
            return ('B', (('f', LITTLE, FULL & ~b[2]),) + (0,) * 7)
        return StrFlow.gload(self, g, off, w)

    def load(self, st, i):
        t = i.ty or ''
        if t in ('float', 'double'):
            p = self.val(st, i.ops[0])
            if p is not None and p[0] == 'L':
                return self.get(st, p[1], p[2], 32 if t == 'float' else 64)
        return StrFlow.load(self, st, i)

    def store(self, st, i):
        t = i.d.get('vt', '')
        if t in ('float', 'double'):
            p = self.val(st, i.ops[1])
            if p is not None and p[0] == 'L':
                self.put(st, p[1], p[2], self.val(st, i.ops[0]), 32 if t == 'float' else 64)
                return
        StrFlow.store(self, st, i)

    def step(self, st, i):
        if i.op == 'bitcast':
            st.env[i.id] = self.val(st, i.ops[0])
            return
        return StrFlow.step(self, st, i)


W = {'char': 8, 'short': 16, 'int': 32, 'long': 64, 'long long': 64, 'float': 32, 'double': 64}


def check(ctx):
    prog = ctx.prog('text')
    ctx.counts['undecided'] = 0
    n = 0
    for f in prog.funcs:
        d = f.dem or ''
        m = re.search(r'endian::(to_little|to_big|from_little|from_big|reverse)<((?:signed |unsigned )?(?:char|short|int|long long|long|float|double))>\(', d)
        b = re.search(r'endian::reverse<(\d+)>\(char\*\)', d)
        r = re.search(r'^pfi::system::endian::reverse\(char\*, int\)', d)
        if not (m or b or r):
            continue
        n += 1
        try:
            if m:
                value(ctx, prog, f, m.group(1), W[re.sub(r'^(un)?signed ', '', m.group(2))])
            elif b:
                buf(ctx, prog, f, int(b.group(1)), None)
            else:
                for k in range(34):
                    if not buf(ctx, prog, f, k, k):
                        break
        except Undecided as e:
            ctx.counts['undecided'] += 1
            ctx.samples.append('undecided %s: %s' % (d[:80], e))
            ctx.ob('attempted', f.short)
    ctx.need('conversions', n, 5)
    order(ctx, prog)


def inbytes(w):
    b = wide('a0', w)[1]
    return [b[8 * k:8 * k + 8] for k in range(w // 8)]


def value(ctx, prog, f, kind, w):
    fl = Bytes(prog, f)
    res = fl.run()
    ins = inbytes(w)
    for st, k, v in res:
        if k != 'ret':
            continue
        if any(e[0] in ('cond', 'loop', 'call', 'store') for e in st.ev):
            raise Undecided('a step is not understood')
        dom = st.dom.get(LITTLE, FULL)
        little = [x for x in (1, 0) if any(y % 2 == x for y in members(dom))]
        got = bits_of(st, v, w)
        if got is None:
            raise Undecided('result not understood')
        for le in little:
            rev = kind == 'reverse' or (kind.endswith('little')) != bool(le)
            want = tuple(x for q in (ins[::-1] if rev else ins) for x in q)
            s2 = st.copy()
            s2.dom[LITTLE] = 2 if le else 1
            ctx.ob('%s machine: %s' % ('little-endian' if le else 'big-endian', 'bytes reversed' if rev else 'value kept'), f.dem[:80])
            if any(unknown(x) for x in got):
                raise Undecided('result not understood')
            if not all(samebit(s2, p, q) for p, q in zip(got, want)):
                k = [samebit(s2, p, q) for p, q in zip(got, want)].index(False) // 8
                ctx.bad('bytes', f, f.file, '%s: byte %d of the result is wrong on a %s-endian machine' % (f.dem[:80], k, 'little' if le else 'big'))
                return


def unknown(x):
    return x is None


def buf(ctx, prog, f, n, size):
    fl = Bytes(prog, f, size)
    st = St()
    for k in range(-2, n + 2):
        st.mem[('buf', k)] = (fresh(('buf', k)), 1)
    res = fl.run(st)
    ctx.ob('%d bytes are reversed in place' % n, f.short)
    for st, kind, v in res:
        if kind != 'ret':
            continue
        if any(e[0] in ('cond', 'loop', 'call', 'store') for e in st.ev):
            raise Undecided('a step is not understood')
        for k in range(-2, n + 2):
            want = n - 1 - k if 0 <= k < n else k
            c = st.mem.get(('buf', k))
            bits = bits_of(st, c[0], 8) if c and c[1] == 1 else None
            if bits is None or any(unknown(x) for x in bits):
                raise Undecided('byte not understood')
            if not all(samebit(st, p, q) for p, q in zip(bits, fresh(('buf', want))[1])):
                ctx.bad('bytes', f, f.file, 'reversing %d bytes: byte %d does not get byte %d' % (n, k, want))
                return False
    return True


def order(ctx, prog):
    """the two flags are complements"""
    for f in prog.funcs:
        if not f.name.startswith(('__cxx_global_var_init', '_GLOBAL__sub_I')) or 'endian' not in (f.file or ''):
            continue
        for i in f.insts():
            if i.op == 'store' and str(i.ops[1]).endswith(('6endian9is_littleE', '6endian6is_bigE')):
                c = f.const(i.ops[0])
                if c is not None:
                    ctx.ob('byte order of this machine', f.short)
                    if (c & 1) != (1 if 'is_little' in str(i.ops[1]) else 0):
                        ctx.bad('order', f, i.where(), 'the machine is taken to be %s-endian' % ('big' if 'is_little' in str(i.ops[1]) else 'not little'))

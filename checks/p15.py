"""UTF-8: the decoder's accepting paths against the table of well-formed sequences, the encoder's output bits for every code point."""
from pfa import *
from codec import *

RULE = '''chars_to_uchar (for plain pointers) is walked in the value-set domain: each path is a box over the next bytes and the number of bytes left. An
accepting path's box must lie within one length class of the table of well-formed UTF-8 sequences (Unicode, table 3-7), consume exactly that many bytes and
return the code point, bit by bit; a path to the fallback must be disjoint from the table (unless the input ends); every path with input consumes at least one byte
and none examines a byte beyond the end. uchar_to_chars must emit, for every code point up to 10FFFF, exactly the bytes of its UTF-8 form and nothing for larger values.
The replacement fallback returns U+FFFD, the exception fallback throws.'''
ASSUME = ['the other instantiations of the templates differ only in the iterator', 'paths whose conditions the domain cannot express are reported as undecided']


def rng(a, b):
    return mask_of(range(a, b + 1))


CONT = rng(0x80, 0xBF)
TABLE = [[rng(0, 0x7F)], [rng(0xC2, 0xDF), CONT], [rng(0xE0, 0xE0), rng(0xA0, 0xBF), CONT], [rng(0xE1, 0xEC) | rng(0xEE, 0xEF), CONT, CONT],
         [rng(0xED, 0xED), rng(0x80, 0x9F), CONT], [rng(0xF0, 0xF0), rng(0x90, 0xBF), CONT, CONT], [rng(0xF1, 0xF3), CONT, CONT, CONT],
         [rng(0xF4, 0xF4), rng(0x80, 0x8F), CONT, CONT]]


class Cells(StrFlow):
    """reference-to-pointer arguments are cells holding a position in a sequence"""
    def __init__(self, prog, f, cells, ends=()):
        StrFlow.__init__(self, prog, f)
        self.cells, self.ends = cells, dict(ends)

    def argval(self, a):
        if a in self.ends:
            return ('P', self.ends[a], fsym(('len', self.ends[a])))
        return StrFlow.argval(self, a)

    def foreign_load(self, st, i, p):
        if p[0] == 'O' and p[1] in self.cells:
            c = st.mem.get((('cell', p[1]), 0))
            return c[0] if c else ('P', self.cells[p[1]], ())
        if p[0] == 'O':
            return ('O', ('load', p[1]))
        return None

    def foreign_store(self, st, i, p, v):
        if p is not None and p[0] == 'O' and p[1] in self.cells:
            st.mem[(('cell', p[1]), 0)] = (v, 8)
            return
        if p is not None and p[0] == 'P' and p[1] in self.cells.values():
            st.ev.append(('put', p[2], v, i.where()))
            return
        raise Undecided('store elsewhere')

    def position(self, st, a):
        c = st.mem.get((('cell', a), 0))
        v = c[0] if c else ('P', self.cells[a], ())
        return v[2] if isinstance(v, tuple) and v[0] == 'P' else None

    def hook(self, st, i, name, args):
        if not i.callee:
            st.ev.append(('fallback', tuple(args), i.where()))
            st.env[i.id] = ('O', 'fallback')
            return True
        return StrFlow.hook(self, st, i, name, args)


def b(sym, lo, hi):
    """bits lo..hi-1 of a byte"""
    return fresh(sym)[1][lo:hi]


def decoder(ctx, prog, f, kind):
    fl = Cells(prog, f, {'a0': 'in'}, {'a1': 'in'})
    fl.BUDGET = 400000
    res = fl.run()
    L = ('len', 'in')
    sy = [('in', form(k) if k else ()) for k in range(8)]
    accepted = []
    for st, k, v in res:
        if k == 'throw':
            continue
        if any(e[0] in ('cond', 'loop') for e in st.ev):
            raise Undecided('a condition is not understood')
        dom = [st.dom.get(s, FULL) for s in sy]
        seen = [n for n, s in enumerate(sy) if s in st.dom]
        pos = fl.position(st, 'a0')
        pos = fconst(pos) if pos is not None else None
        if pos is None:
            raise Undecided('position not understood')
        fb = any(e[0] == 'fallback' for e in st.ev)
        lens = [r for r in range(0, 9) if possible(fl, rels(st), {L: form(r)})]
        ctx.ob('path over %s, %s, consumes %d' % (' '.join(printable(members(dom[n]), 2) for n in seen) or 'nothing', 'fallback' if fb else 'accepts', pos), f.short)
        if not lens:
            continue
        if any(n >= min(lens) for n in seen):
            ctx.bad('past-end', f, f.file, 'byte %d is examined when only %d are left' % (max(seen) + 1, min(lens)))
            return
        if pos > min(lens):
            ctx.bad('past-end', f, f.file, 'the position moves %d bytes when only %d are left' % (pos, min(lens)))
            return
        if pos < 1 and max(lens) > 0:
            ctx.bad('no-progress', f, f.file, 'no byte is consumed although input is left')
            return
        full = max(lens) >= 4
        if fb:
            for row in TABLE:
                if all(dom[n] & row[n] for n in range(len(row))) and any(r >= len(row) for r in lens) and (full or max(lens) >= len(row)):
                    ex = [members(dom[n] & row[n])[0] for n in range(len(row))]
                    wh = [e[2] for e in st.ev if e[0] == 'fallback'][0]
                    ctx.bad('rejected', f, wh, 'the well-formed sequence %s is rejected' % ' '.join('%02x' % x for x in ex))
                    return
            continue
        if min(lens) == 0:
            ctx.bad('empty', f, f.file, 'an empty input is accepted')
            return
        bits = bits_of(st, v, 32)
        if bits is None:
            raise Undecided('value not understood')
        for row in TABLE:
            if dom[0] & row[0]:
                n = len(row)
                if pos != n:
                    ctx.bad('length', f, f.file, 'a sequence starting with %s is taken to be %d bytes long' % (printable(members(dom[0] & row[0]), 1), pos))
                    return
                for j in range(1, n):
                    if dom[j] & ~row[j]:
                        ex = [members(dom[i] & row[i])[0] if i < j else (members(dom[i] & ~row[i])[0] if i == j else members(dom[i])[0]) for i in range(n)]
                        ctx.bad('accepted', f, f.file, 'the malformed sequence %s is accepted' % ' '.join('%02x' % x for x in ex))
                        return
                w = want(sy, n)
                s2 = st.copy()
                s2.dom[sy[0]] = dom[0] & row[0]
                if not all(samebit(s2, p, q) for p, q in zip(bits, w)):
                    ctx.bad('value', f, f.file, 'a %d-byte sequence does not yield its code point' % n)
                    return
        rest = dom[0]
        for row in TABLE:
            rest &= ~row[0]
        if rest:
            ctx.bad('accepted', f, f.file, 'a sequence starting with %s is accepted' % printable(members(rest), 2))
            return
        accepted.append(dom)
    # something accepts every row (rejections are already excluded, this guards against vanished paths)
    for row in TABLE:
        if not any(dom[0] & row[0] for dom in accepted):
            raise Undecided('no accepting path for a class of sequences')


def want(sy, n):
    if n == 1:
        x = b(sy[0], 0, 7)
    elif n == 2:
        x = b(sy[1], 0, 6) + b(sy[0], 0, 5)
    elif n == 3:
        x = b(sy[2], 0, 6) + b(sy[1], 0, 6) + b(sy[0], 0, 4)
    else:
        x = b(sy[3], 0, 6) + b(sy[2], 0, 6) + b(sy[1], 0, 6) + b(sy[0], 0, 3)
    return x + (0,) * (32 - len(x))


CLASSES = [(1, [rng(0, 0x7F), 1, 1, 1]), (2, [rng(0x80, 0xFF), 1, 1, 1]), (2, [FULL, rng(1, 7), 1, 1]), (3, [FULL, rng(8, 255), 1, 1]),
           (4, [FULL, FULL, rng(1, 16), 1]), (0, [FULL, FULL, rng(17, 255), 1]), (0, [FULL, FULL, FULL, rng(1, 255)])]


def encoder(ctx, prog, f):
    fl = Cells(prog, f, {'a1': 'out'})
    fl.BUDGET = 100000
    res = fl.run()
    sy = [('a0', k) for k in range(4)]
    cov = [0] * len(CLASSES)
    for st, k, v in res:
        if any(e[0] in ('cond', 'loop', 'call', 'fallback') for e in st.ev):
            raise Undecided('a step is not understood')
        puts = [e for e in st.ev if e[0] == 'put']
        pos = fl.position(st, 'a1')
        for j, e in enumerate(puts):
            if fconst(e[1]) != j:
                raise Undecided('output positions')
            if not known(e[2]):
                raise Undecided('output byte not understood')
        if pos is None or fconst(pos) != len(puts):
            raise Undecided('position not understood')
        for c, (n, box) in enumerate(CLASSES):
            s2 = st.copy()
            ok = True
            for s, m in zip(sy, box):
                d = s2.dom.get(s, FULL) & m
                if not d:
                    ok = False
                s2.dom[s] = d
            if not ok:
                continue
            cov[c] += 1
            cp = sum(members(s2.dom[s])[0] << (8 * q) for q, s in enumerate(sy))
            ctx.ob('code points like U+%04X become %d bytes' % (cp, n), f.short)
            if len(puts) != n:
                ctx.bad('length', f, puts[0][3] if puts else f.file, 'code points such as U+%04X are written as %d bytes instead of %d' % (cp, len(puts), n))
                return
            bits = tuple(x for s in sy for x in fresh(s)[1])
            for j, e in enumerate(puts):
                lo = 6 * (n - 1 - j)
                if n == 1:
                    w = bits[0:7] + (0,)
                elif j == 0:
                    w = {2: bits[6:11] + (0, 1, 1), 3: bits[12:16] + (0, 1, 1, 1), 4: bits[18:21] + (0, 1, 1, 1, 1)}[n]
                else:
                    w = bits[lo:lo + 6] + (0, 1)
                if not same(s2, e[2], mk(tuple(sbit(s2, x) for x in w))):
                    ctx.bad('bits', f, e[3], 'byte %d written for code points such as U+%04X is wrong' % (j + 1, cp))
                    return
    for c, (n, box) in enumerate(CLASSES):
        if n and not cov[c]:
            raise Undecided('no path for a class')


def check(ctx):
    prog = ctx.prog('text')
    ctx.counts['undecided'] = 0
    n = 0
    for f in prog.funcs:
        d = f.dem or ''
        todo = None
        if re.search(r'detail::chars_to_uchar_impl<char const\*, char const\*>\(', d):
            todo = lambda: decoder(ctx, prog, f, 'impl')
        elif re.search(r'::uchar_to_chars<char\*>\(', d):
            todo = lambda: encoder(ctx, prog, f)
        if todo:
            n += 1
            try:
                todo()
            except Undecided as e:
                ctx.counts['undecided'] += 1
                ctx.samples.append('undecided %s: %s' % (f.short, e))
                ctx.ob('attempted', f.short)
    ctx.counts['string_loops'] = strings(ctx, prog)
    fallbacks(ctx, prog)
    ctx.need('converters', n, 2)


class Whole(StrFlow):
    """conversion of whole strings, character conversion left opaque"""
    def argval(self, a):
        if '(char const*' in self.f.dem and a == 'a1':
            return ('P', 'a1', ())
        if '(char const*, unsigned long' in self.f.dem and a == 'a2':
            return self.wrapf(fsym(('len', 'a1')))
        return StrFlow.argval(self, a)

    def hook(self, st, i, name, args):
        n = i.dem or ''
        if '::chars_to_uchar<' in n:
            k = len([e for e in st.ev if e[0] == 'conv'])
            st.ev.append(('conv', args, i.where()))
            if isinstance(args[0], tuple) and args[0][0] == 'L':
                for key in list(st.mem):
                    if key[0] == args[0][1]:
                        st.mem.pop(key)
            st.env[i.id] = ('O', ('conv', k))
            return True
        if name == 'strlen' and args and args[0] == ('P', 'a1', ()):
            st.env[i.id] = self.wrapf(fsym(('len', 'a1')))
            return True
        if '::uchar_to_chars<' in n:
            st.ev.append(('enc', args[0], i.where()))
            return True
        m = re.search(r'basic_string<unsigned int,.*>::(operator\+=|push_back|append|insert|assign)\(', n)
        if m:
            one = m.group(1) in ('operator+=', 'push_back') and 'basic_string' not in n[m.end():]
            st.ev.append(('out', 'res', args[1] if one else None, i.where()))
            st.env[i.id] = args[0]
            return True
        return StrFlow.hook(self, st, i, name, args)


class Stop(Exception):
    pass


def left_early(ctx, fl, f, st, rec, tail, what):
    """the loop is left only when the position has reached the end"""
    pos = end = None
    for a in rec['agains']:
        for e in a.ev:
            if e[0] != what:
                continue
            if what == 'conv':
                v, w = e[1][0], e[1][1]
                if isinstance(v, tuple) and v[0] == 'L' and isinstance(w, tuple) and w[0] in 'PL':
                    c = rec['start'].mem.get((v[1], v[2]))
                    c = c[0] if c else None
                    if w[0] == 'L':
                        w = rec['start'].mem.get((w[1], w[2]), (None,))[0]
                    if isinstance(c, tuple) and c[0] == 'P' and isinstance(w, tuple) and w[0] == 'P' and c[1] == w[1]:
                        pos, end = c[2], w[2]
            elif isinstance(e[1], tuple) and e[1][0] == 'B':
                sy = [x for x in syms(e[1][1]) if isinstance(x, tuple) and isinstance(x[0], tuple)]
                if sy:
                    pos, end = sy[0][0][1], fsym(('len', sy[0][0][0]))
    if pos is None:
        raise Undecided('position not understood')
    var = [s for s, c in pos if s != 1]
    if len(var) != 1 or fconst(fadd(pos, fsym(var[0]), -1)) is None:
        raise Undecided('position not understood')
    off = fconst(fadd(pos, fsym(var[0]), -1))
    for r in (1, 2, 9):
        if possible(fl, [(e[1], e[2]) for e in tail if e[0] == 'rel'], {var[0]: fadd(end, form(r + off), -1)}):
            if any(e[0] == 'cond' for e in tail):
                raise Undecided('loop left on a condition that is not understood')
            ctx.bad('stops-early', f, f.file, 'conversion can stop although %d character(s) are left' % r)
            raise Stop()


def strings(ctx, prog):
    """every character of the string is converted once and kept, and only the end of the input ends the loop"""
    n = 0
    for f in prog.funcs:
        m = re.match(r'^pfi::data::string::(string_to_ustring|ustring_to_string|uchar_to_string)(\[|\()', f.dem or '')
        if not m:
            continue
        kind = m.group(1)
        if any(i.iscall and 'string_to_ustring' in (i.dem or '') for i in f.insts()):
            continue
        try:
            fl = Whole(prog, f)
            res = fl.run()
            n += 1
            ctx.ob('every character is converted once and kept', f.short)
            what = 'conv' if kind == 'string_to_ustring' else 'enc'
            if kind == 'uchar_to_string':
                for st, k, v in res:
                    if k == 'ret' and len([e for e in st.ev if e[0] == 'enc']) != 1:
                        ctx.bad('dropped', f, f.file, 'the character is not converted on every path')
                continue
            for st, k, v in res:
                ls = [q for q, e in enumerate(st.ev) if e[0] == 'loop']
                if k != 'ret':
                    continue
                if len(ls) != 1:
                    raise Undecided('not one loop')
                rec, tail = st.ev[ls[0]][1], st.ev[ls[0] + 1:]
                left_early(ctx, fl, f, st, rec, tail, what)
                if any(e[0] == what for e in tail):
                    w = [e for e in tail if e[0] == what][0]
                    ctx.bad('stops-early', f, w[-1], 'conversion can stop after a character although input is left')
                    return n
                for a in rec['agains']:
                    cs = [e for e in a.ev if e[0] == what]
                    if len(cs) != 1:
                        if not cs:
                            ctx.bad('dropped', f, f.file, 'a step over the input converts no character')
                            return n
                        raise Undecided('several characters per step')
                    if what == 'conv':
                        keep = [e for e in a.ev if e[0] in ('out', 'out?')]
                        if len(keep) != 1 or keep[0][2] != ('O', ('conv', 0)):
                            if len(keep) == 1 and keep[0][2] is None:
                                raise Undecided('appended value not understood')
                            ctx.bad('dropped', f, cs[0][2], 'a converted character is %s' % ('not kept' if not keep else 'changed or kept more than once'))
                            return n
                    else:
                        v = cs[0][1]
                        t = [q for q in rec['steps'].values() if q == 1]
                        if isinstance(v, tuple) and v[0] == 'B':
                            sy = syms(v[1])
                            if not all(isinstance(x, tuple) and isinstance(x[0], tuple) and x[0][1] == fsym(('t', rec['head'])) for x in sy):
                                raise Undecided('converted element not understood')
                            el = sorted(set(x[0] for x in sy))
                            if len(el) == 1:
                                w = tuple(x for q in range(4) for x in fresh((el[0], q))[1])
                                if tuple(v[1][:32]) != w:
                                    ctx.bad('changed', f, cs[0][2], 'the element is changed before it is converted')
                                    return n
                        elif isinstance(v, int):
                            ctx.bad('constant', f, cs[0][2], 'a constant is converted instead of the element')
                            return n
        except Stop:
            return n
        except Undecided as e:
            ctx.counts['undecided'] += 1
            ctx.samples.append('undecided %s: %s' % (f.short, e))
            ctx.ob('attempted', f.short)
    return n


def fallbacks(ctx, prog):
    for f in prog.funcs:
        d = f.dem or ''
        m = re.search(r'::(replacement|exception)_fallback::fallback\(', d)
        if not m:
            continue
        ctx.ob('the %s fallback' % m.group(1), f.short)
        rets = [i for i in f.insts() if i.op == 'ret']
        throws = [i for i in f.insts() if i.iscall and i.callee == '__cxa_throw']
        if m.group(1) == 'exception' and not throws:
            ctx.bad('fallback', f, f.file, 'the exception fallback never throws')
    for f in prog.funcs:
        if re.search(r'::chars_to_uchar<.*>\([^,]*, [^,]*\)$', f.dem or ''):
            # the replacement the two-argument form installs
            for i in f.insts():
                if i.op == 'store' and i.d.get('vt') == 'i32' and f.const(i.ops[0]) is not None:
                    p = f.path(i.ops[1])
                    if f.root_is_local(p[0]) and p[1] == 8 and 'fallback' in str(f.defs[p[0]].d.get('aty')):
                        ctx.ob('malformed input is replaced by U+FFFD', f.short)
                        if f.const(i.ops[0]) & 0xffffffff != 0xFFFD:
                            ctx.bad('fallback', f, i.where(), 'malformed input is replaced by U+%04X' % (f.const(i.ops[0]) & 0xffffffff))

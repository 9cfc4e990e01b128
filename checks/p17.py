"""JSON: the writer's escape codes for every character, the reader's answer to every escape, and the shape of what is written and read."""
from pfa import *
from bytecodec import *
from words import *
import jsonx

RULE = '''Writer: print_char and print_char_without_escape are walked in the value-set domain; every one of the 128 ASCII characters must be written as itself (if JSON allows that inside
a string) or as an escape that stands for it, every other 16-bit character as \\u with its four digits, every supplementary character as its surrogate pair (plane by plane); a
string is a quote, every character once, a quote. Arrays and objects must emit words of [ (value (, value)*)? ] and { (string : value (, string : value)*)? }. Reader: parse_hex returns the value of exactly
the 22 hexadecimal digits and rejects everything else; in a string literal each escape yields its character, \\u the combination of its digits (surrogate pairs combined, lone ones rejected), other
escapes and raw control characters are rejected and every other character is kept; true, false and null consume their words and report the matching event; arrays and objects consume only words of the grammar; a
number whose conversion reports ERANGE is rejected, errno being reset before it; the number reported is the one converted, its text used up and its kind the one found; a character looked at in advance is
neither lost, nor read twice, nor taken for the end of input; every loop of the reader consumes input; the buffer has room for what one step writes. The tree builder attaches every value once, in order, to
the array or object it belongs to, members under the key read last.'''
ASSUME = ['iostream insertion of characters and literals means what the standard says', 'ctype functions as in the C locale', 'shapes outside the recognised ones are reported as undecided']

ESC = {'"': 34, '\\': 92, '/': 47, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9}


def unescape(t):
    """the code point one JSON string item stands for, None if it is not one item"""
    if len(t) == 1:
        return ord(t) if ord(t) >= 0x20 and t not in '"\\' else None
    if len(t) == 2 and t[0] == '\\':
        return ESC.get(t[1])
    m = re.match(r'^\\u([0-9a-fA-F]{4})$', t)
    return int(m.group(1), 16) if m else None


# ---------------------------------------------------------------- writer

class Out(StrFlow):
    def hook(self, st, i, name, args):
        if name.endswith('json_string::print_char') or name.endswith('print_char_without_escape'):
            st.ev.append(('char', args[1], i.where()))
            return True
        return StrFlow.hook(self, st, i, name, args)


def outword(st):
    o = []
    for e in st.ev:
        if e[0] == 'out':
            if not known(e[2]):
                raise Undecided('output not understood')
            o.append(e)
        elif e[0] in ('out?', 'cond', 'loop', 'call'):
            raise Undecided('a step is not understood')
    return o


def ascii_table(ctx, prog, f, wide_):
    st0 = St()
    syms_ = [('a1', k) for k in range(4)] if wide_ else ['a1']
    for s in syms_[1:]:
        st0.dom[s] = 1
    fl = Out(prog, f)
    fl.BUDGET = 200000
    got = {}
    for st, kind, v in fl.run(st0):
        if kind != 'ret':
            raise Undecided('a character is refused')
        dom = st.dom.get(syms_[0], FULL)
        if any(st.dom.get(s, 1) != 1 for s in syms_[1:]):
            raise Undecided('domain')
        o = outword(st) if not any(e[0] == 'char' for e in st.ev) else None
        if o is None:
            raise Undecided('recursion for a small character')
        for c in members(dom):
            sub = dict((s, c if s == syms_[0] else 0) for s in syms_)
            t = ''.join(chr(at(st, e[2], sub)) for e in o)
            if c in got and got[c] != t:
                raise Undecided('output depends on more than the character')
            got[c] = t
    for c in range(256):
        if c not in got:
            raise Undecided('some characters are not handled')
        ctx.ob('character %02x is written as %s' % (c, chars(map(ord, got[c]))), f.short)
        u = unescape(got[c])
        if c >= 128 and not wide_:
            if got[c] != chr(c):
                ctx.bad('changed', f, f.file, 'byte %02x is written as %s' % (c, chars(map(ord, got[c]))))
                return
        elif c >= 128 and len(got[c]) == 1:
            raise Undecided('raw output of a non-ASCII character')
        elif u != c:
            ctx.bad('escape', f, f.file, 'character U+%04X is written as %s, which %s' % (
                c, chars(map(ord, got[c])) or 'nothing', 'JSON reads as U+%04X' % u if u is not None else 'is not JSON'))
            return


def bmp(ctx, prog, f):
    st0 = St()
    st0.dom[('a1', 2)] = st0.dom[('a1', 3)] = 1
    st0.dom[('a1', 1)] = FULL & ~1
    fl = Out(prog, f)
    fl.BUDGET = 200000
    for st, kind, v in fl.run(st0):
        if kind != 'ret':
            raise Undecided('a character is refused')
        if any(e[0] == 'char' for e in st.ev):
            if any(e[0] == 'char' for e in st.ev):
                c = members(st.dom.get(('a1', 1), FULL))[0] << 8 | members(st.dom.get(('a1', 0), FULL))[0]
                ctx.bad('bmp', f, f.file, 'character U+%04X is written as two surrogates' % c)
                return
        o = outword(st)
        d1, d0 = members(st.dom.get(('a1', 1), FULL)), members(st.dom.get(('a1', 0), FULL))
        if len(o) != 6:
            raise Undecided('not a \\u escape')
        for k, e in enumerate(o):
            sy = syms(tuple(sbit(st, b) for b in e[2][1])) if isinstance(e[2], tuple) else set()
            dep = {0: None, 1: None, 2: ('a1', 1), 3: ('a1', 1), 4: ('a1', 0), 5: ('a1', 0)}[k]
            vals = d1 if k in (2, 3) else d0
            for v in vals if dep else [0]:
                sub = {('a1', 0): v if dep == ('a1', 0) else d0[0], ('a1', 1): v if dep == ('a1', 1) else d1[0], ('a1', 2): 0, ('a1', 3): 0}
                c = chr(at(st, e[2], sub))
                want = '\\u'[k] if k < 2 else '%x' % (v >> 4 if k in (2, 4) else v & 15)
                ctx.obs += 1
                if c.lower() != want:
                    ctx.bad('digits', f, e[3], 'digit %d of the escape of U+%02X%02X is %r' % (k - 1, sub[('a1', 1)], sub[('a1', 0)], c))
                    return
            if sy - ({dep} if dep else set()):
                raise Undecided('a digit depends on more than its bits')


def supplementary(ctx, prog, f):
    for plane in range(1, 17):
        st0 = St()
        st0.dom[('a1', 3)] = 1
        st0.dom[('a1', 2)] = 1 << plane
        fl = Out(prog, f)
        fl.BUDGET = 200000
        for st, kind, v in fl.run(st0):
            cs = [e for e in st.ev if e[0] == 'char']
            if kind != 'ret' or len(cs) != 2 or any(e[0] in ('out?', 'cond', 'loop') for e in st.ev):
                raise Undecided('supplementary character')
            lo = tuple(x for k in (0, 1) for x in fresh(('a1', k))[1])
            x = (plane - 1)
            pl = tuple((x >> k) & 1 for k in range(4))
            h = lo[10:16] + pl + (0, 1, 1, 0, 1, 1)
            l = lo[0:10] + (1, 1, 1, 0, 1, 1)
            # high: 110110 pppp dddddd, low: 110111 dddddddddd
            for name, e, w in (('high', cs[0], h), ('low', cs[1], l)):
                b = bits_of(st, e[1], 32) if e[1] is not None else None
                if b is None:
                    raise Undecided('surrogate not understood')
                ctx.ob('%s surrogate, plane %d' % (name, plane), f.short)
                if not all(samebit(st, p, q) for p, q in zip(b, w + (0,) * 16)):
                    ctx.bad('surrogate', f, e[2], 'the %s surrogate written for plane %d is wrong' % (name, plane))
                    return


class Body(StrFlow):
    def hook(self, st, i, name, args):
        n = i.dem or ''
        if '::chars_to_uchar<' in n:
            st.ev.append(('conv', args, i.where()))
            if isinstance(args[0], tuple) and args[0][0] == 'L':
                for key in list(st.mem):
                    if key[0] == args[0][1]:
                        st.mem.pop(key)
            st.env[i.id] = ('O', 'conv')
            return True
        if re.search(r'json_string::print_char', n):
            st.ev.append(('char', args[1], i.where(), 'without' in n))
            return True
        return StrFlow.hook(self, st, i, name, args)

    def loopcall(self, n):
        return False


def string_body(ctx, prog, f):
    """a quote, every character of the string once, a quote"""
    fl = Body(prog, f)
    fl.BUDGET = 100000
    res = fl.run()
    S = 'a1'
    n = 0
    for st, kind, v in res:
        if kind != 'ret':
            continue
        ls = [k for k, e in enumerate(st.ev) if e[0] == 'loop']
        if len(ls) != 1:
            raise Undecided('not one loop over the string')
        pre, rec, tail = st.ev[:ls[0]], st.ev[ls[0]][1], st.ev[ls[0] + 1:]
        for part, name in ((pre, 'opening'), (tail, 'closing')):
            o = [e for e in part if e[0] in ('out', 'out?')]
            if len(o) != 1 or o[0][2] != 34:
                if any(e[0] == 'out?' or not known(e[2]) for e in o):
                    raise Undecided('quotes')
                ctx.bad('quotes', f, o[0][3] if o else f.file, 'the %s quote of a string is wrong' % name)
                return
        n += 1
        if not rec['agains']:
            raise Undecided('no iteration')
        ctx.ob('every character of the string is written once, between quotes', f.short)
        conds = [e for e in tail if e[0] == 'cond']
        for a in rec['agains']:
            cs = [e for e in a.ev if e[0] == 'char']
            cv = [e for e in a.ev if e[0] == 'conv']
            if any(e[0] in ('loop', 'out?') for e in a.ev):
                raise Undecided('loop body')
            if len(cs) != 1 or len(cv) > 1:
                if not cs and not any(e[0] == 'out' for e in a.ev):
                    ctx.bad('dropped', f, f.file, 'a character of the string may not be written')
                    return
                raise Undecided('loop body')
            if cv:
                if cs[0][1] != ('O', 'conv') or cs[0][3]:
                    raise Undecided('character not understood')
                p, e = cv[0][1][0], cv[0][1][1]
                c = rec['start'].mem.get((p[1], p[2])) if isinstance(p, tuple) and p[0] == 'L' else None
                pos = c[0][2] if c and isinstance(c[0], tuple) and c[0][0] == 'P' else None
                if isinstance(e, tuple) and e[0] == 'P' and e[2] != fsym(('len', S)):
                    ctx.bad('end', f, cv[0][2], 'the conversion does not extend to the end of the string')
                    return
            else:
                v = cs[0][1]
                if not (isinstance(v, tuple) and v[0] == 'B'):
                    raise Undecided('character not understood')
                sy = [x for x in syms(v[1]) if isinstance(x, tuple) and x[0] == S]
                if len(sy) != 1 or tuple(v[1][:8]) != fresh(sy[0])[1]:
                    raise Undecided('character not understood')
                pos = sy[0][1]
            var = [s for s, c in pos if s != 1] if pos is not None else []
            if len(var) != 1 or fconst(fadd(pos, fsym(var[0]), -1)) is None:
                raise Undecided('position not understood')
            off = fconst(fadd(pos, fsym(var[0]), -1))
            end = fsym(('len', S))
            for r in (1, 2, 9):
                if possible(fl, [(e[1], e[2]) for e in tail if e[0] == 'rel'], {var[0]: fadd(end, form(r + off), -1)}):
                    if conds:
                        raise Undecided('loop left on a condition that is not understood')
                    ctx.bad('stops-early', f, f.file, 'writing a string can stop although %d byte(s) are left' % r)
                    return
    if not n:
        raise Undecided('no path')


# ---------------------------------------------------------------- words

def slotname(prog, f, i, cls):
    """method called through a virtual slot of cls"""
    p = i.d.get('cv')
    d = f.defs.get(p)
    if d is None or d.op != 'load':
        return None
    g = f.defs.get(d.ops[0])
    off = 0
    if g is not None and g.op == 'getelementptr':
        off = g.d.get('off', 0)
    vt = prog.globals.get('_ZTV' + cls)
    if not vt or not vt.get('agg'):
        return None
    a = vt['agg'][0]
    k = off // 8 + 2
    return prog.dem(a[k][2:]) if hasattr(prog, 'dem') and k < len(a) else (a[k][2:] if k < len(a) else None)


def simple(m):
    k = re.findall(r'(\d+)', m or '')
    # last identifier of a mangled name
    out, s = None, m or ''
    j = 0
    while j < len(s):
        if s[j].isdigit():
            q = j
            while q < len(s) and s[q].isdigit():
                q += 1
            n = int(s[j:q])
            out = s[q:q + n]
            j = q + n
        else:
            j += 1
    return out


VALUE = 'N3pfi4text4json10json_valueE'
BUILDER = 'N3pfi4text4json12json_builderE'


def run_words(ctx, f, w, final, what):
    w.run()
    if w.truncated or not w.used:
        raise Undecided('%s: control flow not understood' % what)
    ctx.ob('%s: %d states explored' % (what, w.nstates), f.short)
    if w.bad:
        q, x, i = w.bad[0]
        ctx.bad('shape', f, i.where(), '%s: %s out of place' % (what, x))
        return
    for q, i in w.ends:
        if q != final:
            ctx.bad('shape', f, i.where(), '%s: can end too early' % what)
            return


def writer_words(ctx, prog, f):
    cls = 'array' if 'json_array' in f.dem else 'object'

    def letters(i, ex, env):
        if not i.iscall:
            return None
        t = text_out(prog, i)
        if t is False:
            raise Undecided('output not understood')
        if t is not None:
            return list(t.replace(' ', '').replace('\n', ''))
        d = i.dem or ''
        if 'json_string::print(' in d:
            return ['S']
        if not i.callee:
            return ['V']
        if re.search(r'json::(print|pretty)\(', d):
            return ['V']
        return None
    dfa, final = star(['['], ',', ['V'], [']']) if cls == 'array' else star(['{'], ',', ['S', ':', 'V'], ['}'])
    w = Words(prog, f, letters, dfa)
    run_words(ctx, f, w, final, 'text of %s' % cls)


def literal_words(ctx, prog, f):
    want = 'null' if 'json_null' in f.dem else None
    got = []
    for i in f.insts():
        t = text_out(prog, i)
        if t:
            got.append(t)
        elif t is False:
            d = f.defs.get(i.ops[1])
            if d is not None and d.op == 'select':
                a, b = [literal(prog, x) for x in d.ops[1:3]]
                neg = False
                c = f.defs.get(d.ops[0])
                if c is None or c.op not in ('trunc', 'load', 'icmp'):
                    raise Undecided('test not understood')
                if c.op == 'icmp':
                    if f.const(c.ops[1]) != 0:
                        raise Undecided('test not understood')
                    neg = c.d['p'] == 'eq'
                if neg:
                    a, b = b, a
                ctx.ob('a true value is written as %s, a false one as %s' % (a, b), f.short)
                if a is None or b is None:
                    raise Undecided('text not understood')
                if (a, b) != (b'true', b'false'):
                    ctx.bad('bool', f, i.where(), 'a true value is written as %s, a false one as %s' % (a.decode(), b.decode()))
                return
            raise Undecided('output not understood')
    if want:
        ctx.ob('null is written as null', f.short)
        if ''.join(got) != want:
            ctx.bad('null', f, f.file, 'null is written as %s' % ''.join(got))
    else:
        raise Undecided('output not understood')


# ---------------------------------------------------------------- reader

class Reader(StrFlow):
    """peek/incr/match as a stream of code points, parse_hex as a digit"""
    def stream(self, st, k):
        s = ('in', k)
        v = wide(s, 32)
        for q, m in ((3, 1), (2, mask_of(range(0x11)))):
            if (s, q) not in st.dom:
                st.dom[(s, q)] = m
        return s, v

    def pos(self, st):
        return len([e for e in st.ev if e[0] == 'incr'])

    def prep(self, st, h, tsym):
        for k in list(st.dom):
            if isinstance(k, tuple) and isinstance(k[0], tuple) and k[0][0] in ('in', 'hex') or (isinstance(k, tuple) and k[0] == 'hex'):
                del st.dom[k]

    def hook(self, st, i, name, args):
        m = name.rsplit('::', 1)[-1]
        if 'json_parser::' in name:
            if m in ('peek', 'speek', 'incr', 'match', 'smatch'):
                s, v = self.stream(st, self.pos(st))
            if m in ('peek', 'speek'):
                st.env[i.id] = v
                return True
            if m == 'incr':
                st.ev.append(('incr', i.where()))
                st.env[i.id] = v
                return True
            if m in ('match', 'smatch'):
                if not isinstance(args[1], int):
                    raise Undecided('match')
                for q in range(4):
                    b = (args[1] & 0xff) if q == 0 else 0
                    d = st.dom.get((s, q), FULL) & (1 << b)
                    if not d:
                        raise Infeasible()
                    st.dom[(s, q)] = d
                st.ev.append(('incr', i.where()))
                st.ev.append(('tok', chr(args[1] & 255), i.where()))
                return True
            if m == 'ss':
                return True
            if m == 'parse_hex':
                k = len([e for e in st.ev if e[0] == 'hex'])
                st.ev.append(('hex', i.where()))
                s = ('hex', k)
                st.dom[s] = mask_of(range(16))
                st.env[i.id] = mk(fresh(s)[1][:4] + (0,) * 28)
                return True
            if m == 'error':
                st.ev.append(('error', i.where()))
                self.results.append((st, 'throw', None))
                raise Infeasible()
        if '::uchar_to_chars<' in (i.dem or ''):
            st.ev.append(('enc', args[0], i.where()))
            return True
        if not i.callee and self.f.defs.get(i.d.get('cv')) is not None:
            st.ev.append(('event', simple(slotname(self.prog, self.f, i, BUILDER)), tuple(args[1:]), i.where()))
            st.env[i.id] = None
            return True
        return StrFlow.hook(self, st, i, name, args)

    def foreign_load(self, st, i, p):
        return ('O', ('load', p[1])) if p[0] == 'O' and (i.ty or '') == 'ptr' else None

    def foreign_store(self, st, i, p, v):
        if i.d.get('vt') == 'i8':
            st.ev.append(('put', v, i.where()))


def noise(st):
    return any(e[0] in ('cond', 'loop') for e in st.ev)


def hexdigits(ctx, prog, f):
    class R(Reader):
        pass
    fl = R(prog, f)
    fl.BUDGET = 100000
    s = ('in', 0)
    vals = {}
    for st, kind, v in fl.run():
        if noise(st):
            raise Undecided('a condition is not understood')
        small = all(st.dom.get((s, q), FULL) & 1 for q in (1, 2, 3))
        big = any(st.dom.get((s, q), FULL) & ~1 for q in (1, 2, 3))
        err = any(e[0] == 'error' for e in st.ev)
        if big and not err:
            if kind == 'ret':
                ctx.bad('hex', f, f.file, 'a character above U+00FF is taken as a hexadecimal digit')
                return
        if not small:
            continue
        for c in members(st.dom.get((s, 0), FULL)):
            if err or kind != 'ret':
                vals[c] = None
            else:
                b = bits_of(st, v, 32)
                if b is None:
                    raise Undecided('value not understood')
                vals[c] = sum(bit_at(st, x, {(s, 0): c, (s, 1): 0, (s, 2): 0, (s, 3): 0}) << k for k, x in enumerate(b))
    for c in range(256):
        if c not in vals:
            raise Undecided('some characters are not handled')
        w = int(chr(c), 16) if chr(c) in '0123456789abcdefABCDEF' else None
        ctx.ob('%02x as a hexadecimal digit' % c, f.short)
        if vals[c] != w:
            ctx.bad('hex', f, f.file, 'the character %s is read as %s' % (chars([c]), 'digit %d' % vals[c] if vals[c] is not None else 'an error'))
            return


def dom4(st, s):
    return [st.dom.get((s, q), FULL) for q in range(4)]


def string_literal(ctx, prog, f):
    fl = Reader(prog, f)
    fl.BUDGET = 400000
    res = fl.run()
    recs = {}
    for st, kind, v in res:
        for e in st.ev:
            if e[0] == 'loop':
                recs[e[1]['head']] = e[1]
    if len(recs) != 1:
        raise Undecided('not one loop')
    rec = list(recs.values())[0]
    paths = [(a, True) for a in rec['agains']]
    for a, k, v in rec['inner']:
        if k == 'throw' and any(e[0] == 'error' for e in a.ev):
            b = a.copy()
            b.ev = a.ev[max([q for q, e in enumerate(a.ev) if e[0] == 'loop'] + [-1]) + 1:]
            paths.append((b, False))
    s0, s1 = ('in', 0), ('in', 1)
    escs, raws, maxput, nohex = {}, [], 0, 0
    for a, ok in paths:
        if any(e[0] == 'loop' for e in a.ev):
            raise Undecided('nested loop')
        d0 = dom4(a, s0)
        n = len([e for e in a.ev if e[0] == 'incr'])
        puts = [e for e in a.ev if e[0] == 'put']
        encs = [e for e in a.ev if e[0] == 'enc']
        hexs = len([e for e in a.ev if e[0] == 'hex'])
        maxput = max(maxput, len(puts) + 4 * len(encs))
        issmall = all(x & 1 for x in d0[1:])
        if n >= 2 or hexs:
            if d0[0] != 1 << 92 or not issmall:
                raise Undecided('escape not introduced by a backslash')
            d1 = dom4(a, s1)
            cs = members(d1[0]) if all(x & 1 for x in d1[1:]) else []
            bigs = any(x & ~1 for x in d1[1:])
            if hexs:
                if cs != [ord('u')]:
                    ctx.bad('escape', f, f.file, 'digits are read after the escape \\%s' % chars(cs[:2]))
                    return
                nohex += 1
                if not unicode_escape(ctx, f, a, ok, encs, puts, hexs):
                    return
                continue
            if ok and bigs:
                ctx.bad('escape', f, f.file, 'an escape with a non-ASCII character is accepted')
                return
            for c in cs:
                if not ok:
                    if chr(c) in ESC or c == ord('u'):
                        ctx.bad('escape', f, [e[1] for e in a.ev if e[0] == 'error'][0], 'the escape \\%s is rejected' % chr(c))
                        return
                    continue
                if len(puts) != 1 or encs:
                    raise Undecided('output of an escape')
                if not known(puts[0][1]):
                    raise Undecided('output of an escape')
                v = at(a, puts[0][1], {(s1, 0): c, (s1, 1): 0, (s1, 2): 0, (s1, 3): 0})
                ctx.ob('escape \\%s' % chars([c]), f.short)
                if ESC.get(chr(c)) != v:
                    ctx.bad('escape', f, puts[0][2], 'the escape \\%s is read as %02x' % (chars([c]), v))
                    return
                escs[c] = v
        else:
            if n != 1:
                if ok:
                    ctx.bad('progress', f, f.file, 'a step of reading a string consumes nothing')
                    return
                continue
            if ok and issmall:
                for c in members(d0[0]):
                    if c < 0x20 or c in (34, 92):
                        if c in (34, 92):
                            raise Undecided('quote kept as a character')
                        ctx.bad('control', f, f.file, 'the raw control character %02x is accepted in a string' % c)
                        return
            if not ok:
                box = [d0[0] & ~mask_of(list(range(0x20)) + [34, 92]) if issmall and not any(x & ~1 for x in d0[1:]) else d0[0]] + d0[1:]
                if box[0] and (any(x & ~1 for x in d0[1:]) or box[0]):
                    c = sum(members(x)[-1] << (8 * q) for q, x in enumerate(box))
                    if c <= 0x10FFFF:
                        ctx.bad('rejected', f, [e[1] for e in a.ev if e[0] == 'error'][0], 'the character U+%04X is rejected in a string' % c)
                        return
                continue
            if len(encs) != 1 or puts:
                raise Undecided('output of a character')
            b = bits_of(a, encs[0][1], 32) if encs[0][1] is not None else None
            if b is None:
                raise Undecided('character not understood')
            ctx.ob('a raw character is kept', f.short)
            if not all(samebit(a, p, q) for p, q in zip(b, wide(s0, 32)[1])):
                ctx.bad('changed', f, encs[0][2], 'a raw character is changed')
                return
    for c in ESC:
        if ord(c) not in escs:
            raise Undecided('escape \\%s not seen' % c)
    if not nohex:
        raise Undecided('no \\u escape')
    room(ctx, prog, f, maxput)


def unicode_escape(ctx, f, a, ok, encs, puts, hexs):
    h = [fresh(('hex', k))[1][:4] for k in range(hexs)]
    u = h[3] + h[2] + h[1] + h[0] if hexs >= 4 else None
    if u is None:
        raise Undecided('fewer than four digits')
    dm = [members(a.dom.get(('hex', k), mask_of(range(16)))) for k in range(hexs)]
    # the first six bits tell surrogates: digits 0 and 1
    lone = dm[0] == [13] and all(x >= 12 for x in dm[1])
    high = dm[0] == [13] and all(8 <= x <= 11 for x in dm[1])
    plain_ = not (13 in dm[0] and any(x >= 8 for x in dm[1]))
    ctx.ob('\\u escape, first digits %s %s' % (printable(dm[0], 3), printable(dm[1], 3)), f.short)
    if not (lone or high or plain_):
        raise Undecided('digits not told apart')
    if not ok:
        where = [e[1] for e in a.ev if e[0] == 'error'][0]
        if plain_ and dm[0] and dm[1]:
            ctx.bad('unicode', f, where, 'the escape \\u%x%x.. is rejected' % (dm[0][0], dm[1][0]))
            return False
        if high and hexs == 4:
            return True
        if high and hexs == 8 and 13 in dm[4] and any(x >= 12 for x in dm[5]) and dm[4] == [13]:
            ctx.bad('unicode', f, where, 'a surrogate pair is rejected')
            return False
        return True
    if lone:
        ctx.bad('unicode', f, f.file, 'a lone low surrogate is accepted')
        return False
    if len(encs) != 1 or puts:
        raise Undecided('output of an escape')
    b = bits_of(a, encs[0][1], 32) if encs[0][1] is not None else None
    if plain_:
        if hexs != 4:
            raise Undecided('digits')
        if b is None:
            raise Undecided('character not understood')
        if not all(samebit(a, p, q) for p, q in zip(b, u + (0,) * 16)):
            ctx.bad('unicode', f, encs[0][2], 'the digits of a \\u escape are combined wrongly')
            return False
        return True
    if hexs != 8:
        ctx.bad('unicode', f, encs[0][2], 'a lone high surrogate is accepted')
        return False
    if not (dm[4] == [13] and all(x >= 12 for x in dm[5])):
        ctx.bad('unicode', f, encs[0][2], 'a high surrogate followed by \\u%x%x.. is accepted' % (dm[4][0], dm[5][0]))
        return False
    if b is not None:
        # 10000 + hhhhhhhhhh llllllllll: compare where the sum is understood
        l = h[7] + h[6] + h[5][:2]
        hi = h[3] + h[2] + h[1][:2]
        if not all(samebit(a, p, q) for p, q in zip(b[:16], l + hi[:6])):
            ctx.bad('unicode', f, encs[0][2], 'a surrogate pair is combined wrongly')
            return False
    return True


def room(ctx, prog, f, maxput):
    """the test before each step leaves room for what the step writes"""
    for i in f.insts():
        if i.op == 'icmp' and i.d.get('p') in ('uge', 'ugt', 'ult', 'ule'):
            for x, y, p in ((i.ops[0], i.ops[1], i.d['p']), (i.ops[1], i.ops[0], {'uge': 'ule', 'ugt': 'ult', 'ult': 'ugt', 'ule': 'uge'}[i.d['p']])):
                d = f.defs.get(x)
                if d is not None and d.op == 'getelementptr' and not d.d.get('var') and d.d.get('off', 0) > 0:
                    e = f.defs.get(y)
                    if e is None or e.op != 'getelementptr' or not e.d.get('var'):
                        continue
                    k = d.d['off']
                    # p+k >= end: grow
                    have = {'uge': k + 1, 'ugt': k, 'ult': k + 1, 'ule': k}[p]
                    ctx.ob('a step writes at most %d bytes, %d are free' % (maxput, have), f.short)
                    if have < maxput:
                        ctx.bad('room', f, i.where(), 'a step may write %d bytes although only %d are known to be free' % (maxput, have))
                    return


def keyword(ctx, prog, f, word, event, val):
    fl = Reader(prog, f)
    for st, kind, v in fl.run():
        if kind != 'ret':
            continue
        if noise(st) or any(e[0] == 'call' for e in st.ev):
            raise Undecided('a step is not understood')
        toks = ''.join(e[1] for e in st.ev if e[0] == 'tok')
        evs = [e for e in st.ev if e[0] == 'event']
        ctx.ob('%s consumes "%s"' % (f.short, toks), f.short)
        if toks != word:
            ctx.bad('keyword', f, f.file, 'the word consumed is "%s" instead of "%s"' % (toks, word))
            return
        if len(evs) != 1 or evs[0][1] is None:
            raise Undecided('event')
        if evs[0][1] != event or (val is not None and (not isinstance(evs[0][2][0], int) or evs[0][2][0] & 1 != val)):
            ctx.bad('keyword', f, evs[0][3], '"%s" is reported as %s(%s)' % (word, evs[0][1], ', '.join(map(str, evs[0][2]))))
            return


def reader_words(ctx, prog, f):
    cls = 'array' if 'parse_array' in f.dem else 'object'

    def letters(i, ex, env):
        if not i.iscall:
            return None
        d = i.dem or ''
        m = re.search(r'json_parser::(\w+)\(', d)
        if m:
            n = m.group(1)
            if n in ('match', 'smatch'):
                c = f.const(i.ops[1])
                if c is None:
                    raise Undecided('match of a computed character')
                return [chr(c & 255)]
            if n == 'parse_impl' or n in ('parse_array', 'parse_object', 'parse_stream'):
                return ['V']
            if n == 'parse_string_prim':
                return ['K']
            if n == 'error':
                return ['KILL']
            if n in ('peek', 'speek', 'ss'):
                return None
            if n == 'incr':
                return ['ANY']
            raise Undecided('call of %s' % n)
        if not i.callee:
            s = simple(slotname(prog, f, i, BUILDER))
            if s in ('start_array', 'start_object', 'end_array', 'end_object', 'object_key'):
                return [s]
            raise Undecided('event')
        return None
    if cls == 'array':
        dfa, final = star(['start_array', '['], ',', ['V'], [']', 'end_array'])
    else:
        dfa, final = star(['start_object', '{'], ',', ['K', 'object_key', ':', 'V'], ['}', 'end_object'])
    # the events may come before or after the brackets
    for a, b in ((('start_%s' % cls, '[' if cls == 'array' else '{'),) + ((),))[:1]:
        q = dfa[0][a]
        n = 1000
        dfa[0][b] = n
        dfa[n] = {a: dfa[q][b]}
    z = ']' if cls == 'array' else '}'
    for q in list(dfa):
        if z in dfa[q] and q < 1000:
            dfa[q]['end_%s' % cls] = 1001
    dfa[1001] = {z: final}
    def looks(i):
        return re.search(r'json_parser::(peek|speek)\(', i.dem or '') is not None

    def skips(i):
        return re.search(r'json_parser::(speek|ss|smatch)\(', i.dem or '') is not None
    need = {'V': None, 'K': 34}

    def takes(x, nx):
        """can the letter be read when the next character is nx?"""
        if nx == 'consumes':
            return len(x) == 1
        if len(x) > 1 or nx is None:
            return True
        if x == 'V':
            return not (nx[0] == '=' and nx[1] in map(ord, ',:]}'))
        c = 34 if x == 'K' else ord(x)
        return nx[1] == c if nx[0] == '=' else c not in nx[1]
    w = InputWords(prog, f, letters, dfa, looks, skips, takes)
    run_words(ctx, f, w, final, 'reading an %s' % cls)


CONSUME = re.compile(r'json_parser::(incr|match|smatch|parse_\w+)\(')


def progress(ctx, prog, f):
    """every cycle of the reader consumes input"""
    loops = f.loops()
    for h, body in loops.items():
        calls = [i for b in body for i in f.blocks[b] if i.iscall]
        rd = [i for i in calls if 'json_parser::' in (i.dem or '')]
        if not rd:
            continue
        eat = set(b for b in body for i in f.blocks[b] if i.iscall and CONSUME.search(i.dem or ''))
        # cycle through h avoiding eating blocks?
        ctx.ob('each round of the loop at %s consumes input' % f.blocks[h][0].where(), f.short)
        seen, work = set(), [h] if h not in eat else []
        cyc = False
        while work:
            b = work.pop()
            for s in f.succs(b):
                if s not in body or s in eat:
                    continue
                if s == h:
                    cyc = True
                elif s not in seen:
                    seen.add(s)
                    work.append(s)
        if cyc:
            ctx.bad('progress', f, rd[0].where(), 'a round of the loop may consume no input')


def numbers(ctx, prog, f):
    """a conversion that reports ERANGE is never accepted"""
    n = 0
    for i in f.insts():
        if i.op != 'icmp' or f.const(i.ops[1]) != 34:
            continue
        d = f.defs.get(i.ops[0])
        if d is None or d.op != 'load':
            continue
        src = f.defs.get(d.ops[0])
        if src is None or not src.iscall or src.callee != '__errno_location':
            continue
        for b, blk in enumerate(f.blocks):
            t = blk[-1]
            if t.op == 'br' and t.ops and t.ops[0] == i.id:
                n += 1
                s = t.d['succ'][0] if i.d['p'] == 'eq' else t.d['succ'][1]
                ctx.ob('a number out of range is rejected', f.short)
                seen, work = {s}, [s]
                while work:
                    q = work.pop()
                    stop = False
                    for j in f.blocks[q]:
                        if j.iscall and 'json_parser::error(' in (j.dem or ''):
                            stop = True
                            break
                        if j.iscall and not j.callee:
                            ctx.bad('range', f, j.where(), 'a number that does not fit is accepted')
                            return n
                    if stop:
                        continue
                    for x in f.succs(q):
                        if x not in seen:
                            seen.add(x)
                            work.append(x)
    conv = [i for i in f.insts() if i.iscall and i.callee in ('strtod', 'strtoll', 'strtol', 'strtoull', '__isoc23_strtoll', '__isoc23_strtol')]
    if conv and n < len(conv):
        other = any(i.op == 'icmp' and f.const(i.ops[1]) in (0, 34) for i in f.insts())
        errs = [i for i in f.insts() if i.iscall and i.callee == '__errno_location']
        if not errs:
            ctx.bad('range', f, conv[0].where(), 'a number that does not fit is not noticed')
    for i in conv:
        if 'strtol' in i.callee and f.const(i.ops[2]) != 10:
            ctx.bad('base', f, i.where(), 'integers are read in base %s' % f.const(i.ops[2]))
    return n


def check(ctx):
    prog = ctx.prog('text')
    ctx.counts['undecided'] = 0
    ctx.obs = 0
    n = [0]

    def attempt(f, *fns):
        n[0] += 1
        for fn in fns:
            try:
                fn()
            except (Undecided, Infeasible) as e:
                ctx.counts['undecided'] += 1
                ctx.samples.append('undecided %s: %s' % (f.short, e))
                ctx.ob('attempted', f.short)
    off = jsonx.lookfield(prog)
    if off is None:
        ctx.counts['undecided'] += 1
        ctx.samples.append('undecided: look-ahead of the reader')
    for f in prog.funcs:
        d = f.dem or ''
        J = r'^pfi::text::json::'
        if re.search(J + r'json_string::print_char\(std::\w*ostream.*&, unsigned int\)', d):
            attempt(f, lambda: ascii_table(ctx, prog, f, True), lambda: bmp(ctx, prog, f), lambda: supplementary(ctx, prog, f))
        elif re.search(J + r'json_string::print_char_without_escape\(', d):
            attempt(f, lambda: ascii_table(ctx, prog, f, False))
        elif re.search(J + r'json_string::print\(.*basic_string', d):
            attempt(f, lambda: string_body(ctx, prog, f))
        elif re.search(J + r'json_(array|object)::(print|pretty)\(', d):
            attempt(f, lambda: writer_words(ctx, prog, f))
        elif re.search(J + r'json_(null|bool)::print\(', d):
            attempt(f, lambda: literal_words(ctx, prog, f))
        elif re.search(J + r'json_parser::parse_hex\(', d):
            attempt(f, lambda: hexdigits(ctx, prog, f))
        elif re.search(J + r'json_parser::parse_string_prim\(', d):
            attempt(f, lambda: string_literal(ctx, prog, f), lambda: progress(ctx, prog, f), lambda: jsonx.buffer(ctx, prog, f))
        elif re.search(J + r'json_parser::parse_(true|false|null)\(', d):
            w = re.search(r'parse_(true|false|null)', d).group(1)
            attempt(f, lambda: keyword(ctx, prog, f, w, 'null' if w == 'null' else 'boolean', {'true': 1, 'false': 0}.get(w)))
        elif re.search(J + r'json_parser::parse_(array|object)\(', d):
            attempt(f, lambda: reader_words(ctx, prog, f), lambda: progress(ctx, prog, f))
        elif re.search(J + r'json_parser::parse_number\(', d):
            attempt(f, lambda: numbers(ctx, prog, f), lambda: progress(ctx, prog, f), lambda: jsonx.number_values(ctx, prog, f, lambda i: simple(slotname(prog, f, i, BUILDER))))
        elif re.search(J + r'json_parser::(ss|parse_impl|parse_stream)\(', d):
            attempt(f, lambda: progress(ctx, prog, f))
        elif re.search(J + r'json_builder::end_(array|object)\(', d):
            attempt(f, lambda: jsonx.tree(ctx, prog, f))
        elif re.search(J + r'json_builder::(null|boolean|integer|number|string|object_key|start_array|start_object)\(', d):
            attempt(f, lambda: jsonx.event(ctx, prog, f, re.search(r'json_builder::(\w+)', d).group(1)))
        if off is not None and re.search(J + r'json_parser::\w+\(', d):
            n[0] -= 1
            attempt(f, lambda: jsonx.lookahead(ctx, prog, f, off))
    ctx.need('functions', n[0], 8)

"""Byte-wise encoders and decoders: one pass over a string, described by what a generic iteration does with the next bytes."""
from codec import *


class Pass(object):
    """the single loop of a string -> string function"""
    def __init__(self, prog, f, inp, flow=StrFlow, budget=200000):
        self.f, self.inp = f, inp
        fl = self.fl = flow(prog, f)
        fl.BUDGET = budget
        self.res = fl.run()
        recs = {}
        for st, kind, v in self.res:
            for e in st.ev:
                if e[0] == 'loop':
                    recs[e[1]['head']] = e[1]
        if len(recs) != 1:
            raise Undecided('not one pass over the input')
        self.rec = rec = list(recs.values())[0]
        if not rec['agains']:
            raise Undecided('no iteration')
        self.base = None
        offs = [s for a in rec['agains'] for s in a.dom if isinstance(s, tuple) and s[0] == inp]
        for a in rec['agains']:
            for e in a.ev:
                if e[0] in ('out', 'out?') and isinstance(e[2], tuple) and e[2][0] == 'B':
                    offs += [s for s in syms(tuple(sbit(a, b) for b in e[2][1])) if isinstance(s, tuple) and s[0] == inp]
        if not offs:
            raise Undecided('the loop reads no input')
        st = rec['start']
        cands = [(('env', k), v) for k, v in st.env.items()] + [(('mem', k), v[0]) for k, v in st.mem.items()]
        for where, v in cands:
            fm = None
            if isinstance(v, tuple) and v[0] == 'F':
                fm = v[1]
            elif isinstance(v, tuple) and v[0] == 'P' and v[1] == inp:
                fm = v[2]
            if fm is None or fconst(fm) is not None:
                continue
            if any(fconst(fadd(s[1], fm, -1)) is None for s in offs):
                continue
            ds = []
            for a in rec['agains']:
                w = a.env.get(where[1]) if where[0] == 'env' else a.mem.get(where[1], (None,))[0]
                fw = w[2] if isinstance(w, tuple) and w[0] == 'P' and w[1] == inp else (fl.toform(w) if not (isinstance(w, tuple) and w[0] == 'P') else None)
                ds.append(fconst(fadd(fw, fm, -1)) if fw is not None else None)
            pv = rec['pre'].env.get(where[1]) if where[0] == 'env' else rec['pre'].mem.get(where[1], (None,))[0]
            p0 = pv[2] if isinstance(pv, tuple) and pv[0] == 'P' else fl.toform(pv)
            if None in ds:
                continue
            self.base, self.deltas, self.first = fm, ds, fconst(p0) if p0 is not None else None
            if self.first == 0:
                break
        if self.base is None:
            raise Undecided('no loop variable runs over the input')
        self.paths = []
        for a, d in zip(rec['agains'], self.deltas):
            o = []
            for e in a.ev:
                if e[0] == 'out?':
                    raise Undecided('output not understood')
                if e[0] == 'out':
                    if not known(e[2]):
                        raise Undecided('output not understood')
                    o.append(e)
                elif e[0] == 'loop':
                    raise Undecided('nested loop')
            dom = {}
            for s, m in a.dom.items():
                if isinstance(s, tuple) and s[0] == inp:
                    dom[fconst(fadd(s[1], self.base, -1))] = m
                else:
                    raise Undecided('depends on something else')
            self.paths.append((a, dom, o, d))

    def whole(self, ctx, what):
        """the pass starts at the first byte and goes on exactly while bytes remain"""
        f, fl, rec = self.f, self.fl, self.rec
        L = ('len', self.inp)
        if self.first != 0:
            if self.first is None:
                raise Undecided('start not understood')
            ctx.bad('start', f, f.file, '%s starts at byte %d' % (what, self.first))
            return False
        var = [s for s, c in self.base if s != 1]
        if len(var) != 1 or [c for s, c in self.base if s == var[0]] == []:
            raise Undecided('loop variable not understood')
        for r in (1, 2, 3, 4, 9):
            if not any(possible(fl, rels(a), {L: fadd(self.base, form(r))}) for a in rec['agains']):
                ctx.bad('stops-early', f, f.file, '%s stops although %d bytes remain' % (what, r))
                return False
            for st, kind, v in self.res:
                ev = st.ev[[k for k, e in enumerate(st.ev) if e[0] == 'loop'][-1] + 1:] if any(e[0] == 'loop' for e in st.ev) else None
                if ev is None or kind != 'ret':
                    continue
                if possible(fl, [(e[1], e[2]) for e in ev if e[0] == 'rel'], {L: fadd(self.base, form(r))}):
                    conds = [e for e in ev if e[0] == 'cond']
                    if conds:
                        raise Undecided('loop left on a condition that is not understood')
                    ks = [fconst(fadd(x[1], self.base, -1)) if isinstance(x, tuple) and x[0] == self.inp else None for x in st.dom if st.dom[x] != FULL]
                    if None in ks:
                        raise Undecided('loop left on a condition that is not understood')
                    if ks and not all(0 <= k < r for k in ks):
                        continue
                    if ks:
                        ctx.bad('stops-early', f, f.file, '%s stops at the byte %s although more follow' % (what, printable(members(st.dom[(self.inp, fadd(self.base, form(ks[0])))]))))
                        return False
                    ctx.bad('stops-early', f, f.file, '%s can stop although %d bytes remain' % (what, r))
                    return False
        if any(possible(fl, rels(a), {L: self.base}) for a in rec['agains']):
            if not any(m & 1 == 0 for a, dom, o, d in self.paths for k, m in dom.items() if k == 0):
                ctx.bad('past-end', f, f.file, '%s goes on after the last byte' % what)
                return False
        for st, kind, v in self.res:
            k = [k for k, e in enumerate(st.ev) if e[0] == 'loop']
            if not k:
                continue
            if kind == 'ret' and any(e[0] in ('out', 'out?') for e in st.ev[:k[0]] + st.ev[k[-1] + 1:]):
                raise Undecided('output outside the loop')
        return True

    def codes(self, differ=None):
        """encoder: byte -> list of output bytes; differ(byte, code): what to do with a second code"""
        out = {}
        for a, dom, o, d in self.paths:
            if d != 1 or any(k != 0 for k in dom):
                raise Undecided('an iteration does not take one byte')
            s = (self.inp, self.base)
            for b in members(dom.get(0, FULL)):
                c = [at(a, e[2], {s: b}) for e in o]
                if b in out and out[b] != c:
                    if differ:
                        differ(b, c)
                        differ(b, out[b])
                    raise Undecided('output depends on more than the byte')
                out[b] = c
        return out

    def feed(self, seq, remaining=None):
        """decoder: [(consumed, outputs, state, events)] for input starting with seq (exactly `remaining` bytes left if given)"""
        got = []
        L = ('len', self.inp)
        for a, dom, o, d in self.paths:
            if not all(0 <= k < len(seq) and m >> seq[k] & 1 for k, m in dom.items()):
                if any(k < 0 or k >= len(seq) for k in dom) and all(m >> seq[k] & 1 for k, m in dom.items() if 0 <= k < len(seq)):
                    # looks at bytes beyond the given ones
                    if remaining is None or possible(self.fl, rels(a), {L: fadd(self.base, form(remaining))}):
                        got.append((d, None, a, o))
                continue
            if remaining is not None and not possible(self.fl, rels(a), {L: fadd(self.base, form(remaining))}):
                continue
            sub = dict(((self.inp, fadd(self.base, form(k))), v) for k, v in enumerate(seq))
            got.append((d, [at(a, e[2], sub) for e in o], a, o))
        return got


def at(st, v, sub):
    """the value for given input bytes"""
    if isinstance(v, int):
        return v & 255
    if v[0] == 'tab':
        k = 0
        for n, x in enumerate(v[2]):
            k |= bit_at(st, x, sub) << n
        return v[1][k] & 255
    out = 0
    for k, x in enumerate(v[1][:8]):
        out |= bit_at(st, x, sub) << k
    return out


def bit_at(st, x, sub):
    x = sbit(st, x)
    if x in (0, 1):
        return x
    if isinstance(x, tuple) and x[0] == 'f' and x[1] in sub:
        return x[2] >> sub[x[1]] & 1
    if isinstance(x, tuple) and x[0] == 'm':
        p, q = bit_at(st, x[2], sub), bit_at(st, x[3], sub)
        return {'and': p & q, 'or': p | q, 'xor': p ^ q}[x[1]]
    raise Undecided('output depends on other bytes')


def chars(c):
    return ''.join(chr(x) if 32 <= x < 127 else '\\x%02x' % x for x in c)

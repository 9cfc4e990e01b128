"""Helpers for rules about encoders and decoders (on top of strflow)."""
from strflow import *


def mask_of(values_):
    m = 0
    for v in values_:
        m |= 1 << (v & 255)
    return m


def members(mask):
    return [v for v in range(256) if mask >> v & 1]


def printable(vals, limit=6):
    out = []
    for v in vals[:limit]:
        out.append(repr(chr(v)) if 32 < v < 127 else '0x%02x' % v)
    return ', '.join(out) + (' ...' if len(vals) > limit else '')


def subst(fm, sub):
    """replace symbols (recursively inside div/mod) by forms"""
    out = ()
    for k, v in fm:
        if k == 1:
            out = fadd(out, form(v))
            continue
        if k in sub:
            out = fadd(out, fmul(sub[k], v))
            continue
        if isinstance(k, tuple) and k[0] in ('div', 'mod'):
            x = subst(k[1], sub)
            n = k[2]
            rest = nf(dict((s, c) for s, c in x if s == 1 or c % n))
            mult = fadd(x, rest, -1)
            c = fconst(rest)
            if c is not None and (c >= 0 or mult):
                if k[0] == 'mod':
                    out = fadd(out, form(v * (c % n)))
                else:
                    out = fadd(out, fmul(fadd(nf(dict((s, q // n) for s, q in mult)), form(c // n)), v))
                continue
            out = fadd(out, fmul(fsym((k[0], x, n)), v))
            continue
        out = fadd(out, ((k, v),))
    return out


def possible(fl, facts, sub):
    """can the path's index conditions hold under the substitution? False only when one is refuted"""
    st = St()
    for p, a in facts:
        if fl.decide(st, p, subst(a, sub)) is False:
            return False
    return True


def rels(st):
    return [(e[1], e[2]) for e in st.ev if e[0] == 'rel'] + list(st.facts)


def outs(st, key=None):
    return [e for e in st.ev if e[0] in ('out', 'out?') and (key is None or e[1] == key)]


def same(st, a, b, w=8):
    """are two values the same function of the input on this path?"""
    if isinstance(a, tuple) and a[0] == 'tab' or isinstance(b, tuple) and b[0] == 'tab':
        if not (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'tab'):
            return False
        x, y = [tuple(sbit(st, q) for q in z[2]) for z in (a, b)]
        n = max(len(x), len(y))
        x, y = x + (0,) * (n - len(x)), y + (0,) * (n - len(y))
        return all(samebit(st, p, q) for p, q in zip(x, y)) and tuple(v & 255 for v in a[1][:1 << n]) == tuple(v & 255 for v in b[1][:1 << n])
    x, y = bits_of(st, a, w), bits_of(st, b, w)
    if x is None or y is None:
        return False
    return all(samebit(st, p, q) for p, q in zip(x, y))


def samebit(st, p, q):
    p, q = sbit(st, p), sbit(st, q)
    if p == q:
        return p is not None
    if isinstance(p, tuple) and isinstance(q, tuple) and p[0] == q[0] == 'f' and p[1] == q[1]:
        d = st.dom.get(p[1], FULL)
        return p[2] & d == q[2] & d
    return False


def known(v):
    """is the value fully understood?"""
    if isinstance(v, int):
        return True
    if isinstance(v, tuple) and v[0] == 'B':
        return None not in v[1]
    return isinstance(v, tuple) and v[0] == 'tab'


def byte_fn(sym, fn):
    """the function fn of one input byte, as a value of width 8"""
    return from_values([(v, fn(v) & 255) for v in range(256)], sym, 8)


def split_loops(st):
    """events before, records of loops, events after the last loop"""
    recs = [e[1] for e in st.ev if e[0] == 'loop']
    return recs


def example(st, syms_):
    return ' '.join('%s=%s' % (n, printable(members(st.dom.get(s, FULL)), 3)) for n, s in syms_ if s in st.dom)

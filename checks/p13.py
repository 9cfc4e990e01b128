"""Base64: what the encoder's loop and tail emit for a block, and what the decoder makes of it, as exact functions of the block's bytes."""
from pfa import *
from codec import *

RULE = '''base64_encode: a generic iteration t of its loop reads exactly the bytes 3t..3t+2 and emits the four alphabet characters of their 6-bit groups,
it runs exactly while three bytes remain, and for 0, 1 or 2 remaining bytes the tail emits nothing, two characters and "==", or three and "=".
base64_decode: a generic iteration maps the four characters at 4t..4t+3 to the three bytes their values stand for (two or one before padding),
rejects every other character and every length that is not a multiple of four, and rejects nothing an encoder can produce. All of it is decided
bit by bit: each output bit is computed as a boolean function of one input byte.'''
ASSUME = ['std::string operations mean what the standard says', 'loop shapes outside one pass over the blocks are reported as undecided']

ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
REV = dict((c, k) for k, c in enumerate(ALPHA))
AMASK = mask_of(ALPHA)
EQ = mask_of(b'=')


def six(st, bits):
    """alphabet character of a 6-bit group"""
    b = tuple(sbit(st, x) for x in bits)
    sy = syms(b)
    if len(sy) <= 1:
        return StrFlow.lookup(None, st, list(ALPHA), ('B', b), 8) if sy else sgn(ALPHA[mk(b)], 8)
    n = len(b)
    while n and b[n - 1] == 0:
        n -= 1
    return ('tab', tuple(ALPHA), b[:n])


def groups(by):
    bits = ()
    for b in reversed(by):
        bits += b
    # most significant byte first: bits is little-endian over the concatenation
    n = len(bits)
    return [bits[k - 6:k] if k >= 6 else None for k in range(n, 0, -6)]


def want_block(st, sy):
    """characters for 1..3 bytes named by the symbols sy"""
    by = [fresh(s)[1] for s in sy]
    while len(by) < 3:
        by.append((0,) * 8)
    g = groups(by)
    out = [six(st, x) for x in g[:len(sy) + 1]]
    return out + [ord('=')] * (3 - len(sy))


def tsym(rec):
    return ('t', rec['head'])


def check(ctx):
    prog = ctx.prog('lo')
    enc = prog.need('pfi::data::encoding::base64_encode')
    dec = prog.need('pfi::data::encoding::base64_decode')
    und = 0
    for f, rule in ((enc, encode), (dec, decode)):
        f = f[0] if isinstance(f, list) else f
        try:
            rule(ctx, prog, f)
        except Undecided as e:
            und += 1
            ctx.samples.append('undecided %s: %s' % (f.short, e))
            ctx.ob('attempted', f.short)
    ctx.counts['undecided'] = und


def roots(f):
    """(output key, input key) of a string -> string function"""
    if f.args and f.args[0].get('sret'):
        return 'a0', 'a1'
    raise Undecided('unusual signature')


def encode(ctx, prog, f):
    out, inp = roots(f)
    fl = StrFlow(prog, f)
    res = fl.run()
    covered = set()
    recs = {}
    for st, kind, v in res:
        ls = [e[1] for e in st.ev if e[0] == 'loop']
        if kind != 'ret' or len(ls) != 1:
            raise Undecided('not one pass over the input')
        recs[ls[0]['head']] = ls[0]
    if len(recs) != 1:
        raise Undecided('several loops')
    rec = list(recs.values())[0]
    t = tsym(rec)
    L = ('len', inp)
    base = fmul(fsym(t), 3)
    if not rec['agains']:
        raise Undecided('no iteration')
    ctx.ob('one iteration encodes bytes 3t..3t+2 and runs exactly while three remain', f.short)
    for a in rec['agains']:
        sy = [(inp, fadd(base, form(k))) for k in range(3)]
        got = outs(a)
        ok = compare(ctx, f, a, [e for e in got], want_block(a, sy), 'a full block')
        for r in range(0, 9):
            p = possible(fl, rels(a), {L: fadd(base, form(r))})
            if r < 3 and p:
                ctx.bad('block-bound', f, f.file, 'an iteration can run with only %d bytes left' % r)
                return
        if not ok:
            return
    for r in (3, 4, 5, 6, 7, 8):
        if not any(possible(fl, rels(a), {L: fadd(base, form(r))}) for a in rec['agains']):
            ctx.bad('block-bound', f, f.file, 'no iteration runs with %d bytes left' % r)
            return
    for st, kind, v in res:
        fs = rels(st)
        ev = st.ev[[k for k, e in enumerate(st.ev) if e[0] == 'loop'][-1] + 1:]
        rs = [r for r in range(0, 9) if possible(fl, [(e[1], e[2]) for e in ev if e[0] == 'rel'], {L: fadd(base, form(r))})]
        for r in rs:
            if r >= 3:
                ctx.bad('block-bound', f, f.file, 'encoding can stop with %d bytes left' % r)
                return
            covered.add(r)
            ctx.ob('tail of %d bytes' % r, f.short)
            sy = [(inp, fadd(base, form(k))) for k in range(r)]
            want = want_block(st, sy) if r else []
            if not compare(ctx, f, st, [e for e in ev if e[0] in ('out', 'out?')], want, '%d remaining bytes' % r):
                return
    for r in range(3):
        if r not in covered:
            ctx.bad('tail', f, f.file, 'no path ends with %d bytes left' % r)


def compare(ctx, f, st, got, want, what):
    for e in got:
        if e[0] == 'out?' or not known(e[2]):
            raise Undecided('emitted character not understood')
    if len(got) != len(want):
        ctx.bad('length', f, got[0][3] if got else f.file, '%s: %d characters are emitted instead of %d' % (what, len(got), len(want)))
        return False
    for k, (g, w) in enumerate(zip(got, want)):
        if not same(st, g[2], w):
            ctx.bad('character', f, g[3], '%s: output %d is not the right function of the input bytes' % (what, k + 1))
            return False
    return True


def decode(ctx, prog, f):
    out, inp = roots(f)
    fl = StrFlow(prog, f)
    fl.BUDGET = 200000
    res = fl.run()
    L = ('len', inp)
    recs = {}
    for st, kind, v in res:
        for e in st.ev:
            if e[0] == 'loop':
                recs[e[1]['head']] = e[1]
    if len(recs) != 1:
        raise Undecided('not one pass over the input')
    rec = list(recs.values())[0]
    t = tsym(rec)
    base = fmul(fsym(t), 4)
    sy = [(inp, fadd(base, form(k))) for k in range(4)]
    vals = [byte_fn(s, lambda c: REV.get(c, 0))[1] for s in sy]
    if not rec['agains']:
        raise Undecided('no iteration')

    def want(n):
        v = [x[:6] for x in vals]
        bits = v[3] + v[2] + v[1] + v[0]
        o = [mk(bits[16:24]), mk(bits[8:16]), mk(bits[0:8])]
        return o[:n]

    def within(st, k, m):
        d = st.dom.get(sy[k], FULL)
        return d & ~m == 0
    ctx.ob('an iteration over 4t..4t+3 yields exactly the bytes its characters stand for', f.short, n=len(rec['agains']))
    for a in rec['agains']:
        bad = [k for k in range(4) if not within(a, k, AMASK)]
        if bad:
            d = a.dom.get(sy[bad[0]], FULL) & ~AMASK
            ctx.bad('accepted', f, f.file, 'character %d of a block may be %s without being rejected' % (bad[0] + 1, printable(members(d))))
            return
        if not compare(ctx, f, a, outs(a), want(3), 'a full block'):
            return
        for r in range(0, 4):
            if possible(fl, rels(a), {L: fadd(base, form(r))}):
                # only lengths that are multiples of four reach the loop
                if r == 0:
                    ctx.bad('block-bound', f, f.file, 'an iteration can run with no characters left')
                    return
    starts = set()
    full = None
    n_ok = 0
    for st, kind, v in res:
        ls = [k for k, e in enumerate(st.ev) if e[0] == 'loop']
        if not ls:
            fs = rels(st)
            if kind == 'throw':
                ctx.ob('a length that is not a multiple of four is rejected', f.short)
                if possible(fl, fs, {L: base}):
                    # only when nothing restricts it
                    if fs:
                        ctx.bad('rejected', f, f.file, 'a length that is a multiple of four is rejected')
                        return
                starts.add('throw')
                continue
            if kind == 'ret' and outs(st) == [] and not possible(fl, fs, {L: form(4)}):
                continue
            raise Undecided('path without loop')
        ev = st.ev[ls[-1] + 1:]
        fs = [(e[1], e[2]) for e in ev if e[0] == 'rel']
        got = [e for e in ev if e[0] in ('out', 'out?')]
        touched = [k for k in range(4) if sy[k] in st.dom]
        if kind == 'throw':
            ctx.ob('rejected blocks are invalid', f.short)
            doms = [st.dom.get(s, FULL) for s in sy]
            for pads in ((AMASK, AMASK, AMASK, AMASK), (AMASK, AMASK, AMASK, EQ), (AMASK, AMASK, EQ, EQ)):
                if all(d & m for d, m in zip(doms, pads)):
                    ctx.bad('rejected', f, f.file, 'a valid block is rejected: %s' % ' '.join(printable(members(d & m), 1) for d, m in zip(doms, pads)))
                    return
            continue
        if not touched:
            # regular end
            ctx.ob('decoding ends when no characters are left', f.short)
            if possible(fl, fs, {L: fadd(base, form(4))}):
                ctx.bad('block-bound', f, f.file, 'decoding can stop with four characters left')
                return
            if got:
                ctx.bad('length', f, got[0][3], 'bytes are produced after the last block')
                return
            for r in (1, 2, 3):
                if possible(fl, rels(st), {L: fadd(base, form(r))}):
                    ctx.bad('length-check', f, f.file, 'a length that leaves %d characters after the last block is not rejected' % r)
                    return
            continue
        n_ok += 1
        ctx.ob('a padded block yields the bytes before the padding', f.short)
        if not within(st, 0, AMASK) or not within(st, 1, AMASK):
            ctx.bad('accepted', f, f.file, 'a block whose first two characters are not both data is accepted')
            return
        if within(st, 2, EQ):
            n = 1
        elif within(st, 2, AMASK) and within(st, 3, EQ):
            n = 2
        elif within(st, 2, AMASK) and within(st, 3, AMASK):
            raise Undecided('loop is left after a full block')
        else:
            ctx.bad('accepted', f, f.file, 'decoding stops at a block that is neither full nor padded (third %s, fourth %s)' % (
                printable(members(st.dom.get(sy[2], FULL))), printable(members(st.dom.get(sy[3], FULL)))))
            return
        if not compare(ctx, f, st, got, want(n), 'a block with %d padding characters' % (3 - n)):
            return
    if 'throw' not in starts:
        # nothing rejects other lengths: the last block would be read past its end
        for r in (1, 2, 3):
            if any(possible(fl, rels(a), {L: fadd(base, form(r))}) for a in rec['agains']):
                ctx.bad('length-check', f, f.file, 'a length that is not a multiple of four is not rejected')
                return
    if not n_ok:
        ctx.bad('padding', f, f.file, 'no path handles padding')

"""Percent coding: the encoder's 256 codes, and what the decoder makes of each."""
from pfa import *
from bytecodec import *

RULE = '''uri_encode is one pass over the string whose generic iteration is tabulated for all 256 byte values (value-set domain); each code may consist only of
unreserved characters, %, + and hexadecimal digits, and an unreserved character is encoded as itself. uri_decode is one pass whose generic iteration,
given the code of byte b (and at least as many bytes remaining as the code has), must consume exactly the code and emit exactly b, for all 256 values;
a trailing incomplete escape never makes it read past the end.'''
ASSUME = ['ctype functions as in the C locale', 'std::string and stream insertion of characters mean what the standard says', 'loop shapes outside one pass are reported as undecided']

UNRES = set(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~')
HEX = set(b'0123456789ABCDEFabcdef')


def check(ctx):
    prog = ctx.prog('text')
    enc = prog.need('pfi::network::uri_encode')
    dec = prog.need('pfi::network::uri_decode')
    enc, dec = [x[0] if isinstance(x, list) else x for x in (enc, dec)]
    ctx.counts['undecided'] = 0
    codes = None
    try:
        e = Pass(prog, enc, 'a1')
        if e.whole(ctx, 'encoding'):
            codes = e.codes()
            if len(codes) != 256:
                raise Undecided('some bytes are not handled in the loop')
            for b in range(256):
                c = codes[b]
                ctx.ob('code of byte %02x is %s' % (b, chars(c)), enc.short)
                if any(x not in UNRES and x not in b'%+' for x in c):
                    ctx.bad('unsafe', enc, enc.file, 'byte %02x is encoded as "%s", which contains a reserved character' % (b, chars(c)))
                    return
                if b in UNRES and c != [b]:
                    ctx.bad('unreserved', enc, enc.file, 'the unreserved character %r is encoded as "%s"' % (chr(b), chars(c)))
                    return
                if not c:
                    ctx.bad('dropped', enc, enc.file, 'byte %02x is dropped' % b)
                    return
    except Undecided as x:
        ctx.counts['undecided'] += 1
        ctx.samples.append('undecided encode: %s' % x)
        codes = None
    try:
        d = Pass(prog, dec, 'a1')
        if not d.whole(ctx, 'decoding'):
            return
        std = {}
        for b in range(256):
            std.setdefault(b, []).append([37, ord('%X' % (b >> 4)), ord('%X' % (b & 15))])
            std[b].append([37, ord('%x' % (b >> 4)), ord('%x' % (b & 15))])
            if codes is not None:
                std[b].append(codes[b])
        for b in range(256):
            for c in std[b]:
                ctx.ob('"%s" decodes to byte %02x' % (chars(c), b), dec.short)
                for rem in (len(c), len(c) + 1, len(c) + 5):
                    g = d.feed(c, rem)
                    if not g:
                        raise Undecided('no path for an input')
                    for n, o, st, ev in g:
                        wh = ev[0][3] if ev else dec.file
                        if o is None:
                            raise Undecided('decoding looks further ahead')
                        if n != len(c) or o != [b]:
                            ctx.bad('roundtrip', dec, wh, 'byte %02x is encoded as "%s"; decoding that%s gives "%s" and moves on by %d' % (
                                b, chars(c), ' at the end of the text' if rem == len(c) else '', chars(o), n))
                            return
        # bytes looked at on a path must exist
        L = ('len', 'a1')
        for a, dom, o, dd in d.paths:
            for r in (1, 2, 3):
                if possible(d.fl, rels(a), {L: fadd(d.base, form(r))}):
                    used = [k for k in dom if dom[k] != FULL]
                    ctx.ob('with %d bytes left only those are examined' % r, dec.short)
                    if any(k > r for k in used):
                        ctx.bad('past-end', dec, o[0][3] if o else dec.file, 'with %d bytes left, byte %d after the current one is examined' % (r, max(used)))
                        return
                    if dd > r:
                        ctx.bad('past-end', dec, o[0][3] if o else dec.file, 'with %d bytes left, the position moves on by %d' % (r, dd))
                        return
    except Undecided as x:
        ctx.counts['undecided'] += 1
        ctx.samples.append('undecided decode: %s' % x)
        ctx.ob('attempted', dec.short)

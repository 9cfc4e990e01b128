"""XHTML output: the escape table for all 256 bytes, and the word each renderer writes."""
from pfa import *
from bytecodec import *

RULE = '''html_encode is one pass whose generic iteration is tabulated for all 256 byte values: & " ' < > must become an entity that stands for them and every other
byte must be written unchanged. The renderers are walked with html_encode and the children's renderers left opaque: on each path the written word, white
space aside, must be <name attributes/> or <name attributes>children</name>, an attribute being name or name="value" after white space; every string
in it must be a result of html_encode (prim_elem, whose purpose is raw output, excepted); each child is rendered once per step of a loop over all children.'''
ASSUME = ['std::string and stream insertion mean what the standard says', 'loop shapes outside one pass are reported as undecided']

ENT = {'&amp;': 38, '&quot;': 34, '&lt;': 60, '&gt;': 62, '&apos;': 39}


def entity(c):
    t = ''.join(map(chr, c))
    if t in ENT:
        return ENT[t]
    m = re.match(r'^&#(\d+);$', t)
    if m:
        return int(m.group(1))
    m = re.match(r'^&#[xX]([0-9a-fA-F]+);$', t)
    return int(m.group(1), 16) if m else None


class Render(StrFlow):
    def hook(self, st, i, name, args):
        n = i.dem or ''
        if 'xhtml::html_encode' in name:
            if args[0] is None or args[0][0] != 'L':
                raise Undecided('encoded text goes elsewhere')
            st.env[('enc', args[0][1])] = self.key(args[1])
            return True
        if re.search(r'(_Rb_tree_(const_)?iterator|_Node_(const_)?iterator)<?.*::operator(->|\*)', n):
            st.env[i.id] = ('O', 'attr')
            return True
        if not i.callee and len(args) >= 2 and args[1] == ('O', 'a1'):
            st.ev.append(('child', args[0], i.where()))
            return True
        if re.search(r'std::vector<.*>::(operator\[\]|at)\(', n) and 'shared_ptr' in n:
            st.ev.append(('pick', args[0], args[1], i.where()))
            st.env[i.id] = None
            return True
        if re.search(r'std::vector<.*>::(size|empty)\(\) const', n) and 'shared_ptr' in n:
            k = ('F', fsym(('len', 'children')))
            st.env[i.id] = k if '::size(' in n else self.cmp(st, 'eq', k, 0, 64)
            return True
        return StrFlow.hook(self, st, i, name, args)

    def pure(self, i):
        return StrFlow.pure(self, i) or bool(re.search(r'std::vector<.*>::(size|empty)\(\) const', i.dem or ''))


def tokens(f, st, evs):
    out = []
    for e in evs:
        if e[0] in ('out', 'out?') and e[1] != 'a1':
            continue
        if e[0] == 'out':
            v = e[2]
            if not isinstance(v, int):
                raise Undecided('character not understood')
            c = chr(v & 255)
            out.append(('ws',) if c in ' \n\t\r' else ('c', c, e[3]))
        elif e[0] == 'out?':
            v = e[2]
            if isinstance(v, tuple) and v[0] == 'L' and ('enc', v[1]) in st.env:
                out.append(('enc', st.env[('enc', v[1])], e[3]))
            elif isinstance(v, tuple) and v[0] == 'O' and v[1] != 'a1':
                out.append(('raw', v[1], e[3]))
            elif isinstance(v, tuple) and v[0] == 'P' and re.match(r'g:_ZSt(4endl|5flush|4ends)', v[1]):
                out.append(('ws',))
            elif v is None:
                raise Undecided('output not understood')
            else:
                raise Undecided('text of unknown origin')
        elif e[0] == 'child':
            out.append(('child', None, e[2]))
        elif e[0] == 'call' and re.search(r'endl|operator<<', e[1]):
            if 'endl' in e[1]:
                out.append(('ws',))
            else:
                raise Undecided('output not understood')
        elif e[0] == 'call' and ('O', 'a1') in e[2]:
            if 'basic_ostream::operator<<' in e[1] or 'flush' in e[1]:
                out.append(('ws',))
            else:
                raise Undecided('stream passed to %s' % e[1])
        elif e[0] == 'loop':
            r = e[1]
            its = [(a, tokens(f, a, a.ev)) for a in r['agains']]
            if r['inner']:
                raise Undecided('return inside a loop')
            if all(not t for a, t in its):
                continue
            if all(x[0] == 'ws' for a, t in its for x in t):
                out.append(('ws',))
                continue
            if any(x[0] == 'child' for a, t in its for x in t):
                out.append(('children', its, r))
            else:
                out.append(('attrs', its, r))
    return out


def word(ts):
    return [t for t in ts if t[0] != 'ws']


def check(ctx):
    prog = ctx.prog('text')
    ctx.counts['undecided'] = 0
    enc = prog.need('pfi::text::xhtml::html_encode')
    enc = enc[0] if isinstance(enc, list) else enc
    try:
        p = Pass(prog, enc, 'a1')
        if p.whole(ctx, 'encoding'):
            def differ(b, c):
                if b in b'&"\'<>' and c == [b]:
                    ctx.bad('escape', enc, enc.file, 'the character %r is written as it is depending on what surrounds it' % chr(b))
            codes = p.codes(differ)
            if len(codes) != 256:
                raise Undecided('some bytes are not handled in the loop')
            for b in range(256):
                c = codes[b]
                ctx.ob('byte %02x becomes %s' % (b, chars(c)), enc.short)
                if b in b'&"\'<>':
                    if entity(c) != b:
                        ctx.bad('escape', enc, enc.file, 'the character %r is written as "%s"' % (chr(b), chars(c)))
                elif c != [b] and not (entity(c) == b and b < 128):
                    ctx.bad('changed', enc, enc.file, 'byte %02x is written as "%s"' % (b, chars(c)))
    except Undecided as x:
        ctx.counts['undecided'] += 1
        ctx.samples.append('undecided html_encode: %s' % x)
    n = 0
    for f in prog.funcs:
        m = re.match(r'^pfi::text::xhtml::(\w+)::(render|pretty)\(std::ostream&(, int)?\) const$', f.dem or '')
        if not m or m.group(1) in ('prim_elem', 'html_elem'):
            continue
        n += 1
        try:
            (element if m.group(1) == 'tag_elem' else text)(ctx, prog, f)
        except Undecided as x:
            ctx.counts['undecided'] += 1
            ctx.samples.append('undecided %s: %s' % (f.short, x))
            ctx.ob('attempted', f.short)
    ctx.need('renderers', n, 3)


def raws(ctx, f, ts):
    for t in ts:
        if t[0] == 'raw':
            ctx.bad('unescaped', f, t[2], 'text supplied by the user is written without html_encode')
            return True
        if t[0] in ('attrs', 'children') and any(raws(ctx, f, x) for a, x in t[1]):
            return True
    return False


def shape(ts):
    """the word, as text"""
    out = ''
    for t in ts:
        out += t[1] if t[0] == 'c' else {'enc': 'E', 'attrs': 'A', 'children': 'C', 'child': 'C', 'raw': 'R'}[t[0]]
    return out


def text(ctx, prog, f):
    fl = Render(prog, f)
    for st, kind, v in fl.run():
        ts = tokens(f, st, st.ev)
        ctx.ob('writes exactly the encoded text', f.short)
        if raws(ctx, f, ts):
            return
        if shape(word(ts)) != 'E':
            ctx.bad('shape', f, f.file, 'a text is written as "%s"' % shape(word(ts)))
            return


def element(ctx, prog, f):
    fl = Render(prog, f)
    res = fl.run()
    kids = False
    for st, kind, v in res:
        if kind != 'ret':
            continue
        ts = tokens(f, st, st.ev)
        ctx.ob('a path writes a complete element', f.short)
        if raws(ctx, f, ts):
            return
        w = word(ts)
        s = shape(w)
        if s not in ('<EA/>', '<EAC</E>'.replace('C', '>C', 1), '<EA></E>'):
            ctx.bad('shape', f, f.file, 'an element can be written as "%s" (E: encoded text, A: attributes, C: children)' % s)
            return
        if 'C' not in s:
            for r in (1, 2, 3):
                if possible(fl, rels(st), {('len', 'children'): form(r)}):
                    if any(e[0] == 'cond' and f.depends(e[3], lambda d: d.iscall and 'shared_ptr' in (d.dem or '')) for e in st.ev):
                        break
                    ctx.bad('children', f, f.file, 'an element with %d children can be written without them' % r)
                    return
        names = [t[1] for t in w if t[0] == 'enc']
        if len(set(names)) != 1:
            if None in names:
                raise Undecided('names not understood')
            ctx.bad('names', f, f.file, 'the opening and the closing tag are written from different strings')
            return
        for t in w:
            if t[0] == 'attrs':
                for a, x in t[1]:
                    ctx.ob('an attribute is a name, or a name and a quoted value', f.short)
                    y = shape(word(x))
                    if y not in ('E', 'E="E"', "E='E'"):
                        ctx.bad('attribute', f, f.file, 'an attribute can be written as "%s"' % y)
                        return
                    if x[0][0] != 'ws':
                        ctx.bad('attribute', f, f.file, 'an attribute is not separated from what precedes it')
                        return
                    ks = [q[1] for q in x if q[0] == 'enc']
                    if ks[0] != 'attr' or len(ks) == 2 and ks[1] != ('attr', 32):
                        if None in ks:
                            raise Undecided('attribute parts not understood')
                        ctx.bad('attribute', f, f.file, 'an attribute is not written from its name and its value')
                        return
                if len(set(shape(word(x)) for a, x in t[1])) < 2 and all(shape(word(x)) == 'E' for a, x in t[1]):
                    ctx.bad('attribute', f, f.file, 'attribute values are never written')
                    return
            if t[0] == 'children':
                kids = True
                ctx.ob('every child is written once, in order', f.short)
                for a, x in t[1]:
                    if shape(word(x)) != 'C':
                        ctx.bad('children', f, f.file, 'one step over the children writes "%s"' % shape(word(x)))
                        return
                picks = [e for a, x in t[1] for e in a.ev if e[0] == 'pick']
                for e in picks:
                    fm = fl.toform(e[2])
                    if fm is not None and fm != fsym(('t', t[2]['head'])):
                        ctx.bad('children', f, e[3], 'step i writes child %s' % fshow(fm))
                        return
    if not kids:
        ctx.bad('children', f, f.file, 'no path writes the children')

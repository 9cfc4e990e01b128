"""HTTP bodies: exactly the bytes their framing announces."""
from induct import *

RULE = '''Value numbering of underflow and uflow of the body stream buffers with ghost counts of what the framing still announces: a byte is taken from the connection only while at least one is announced and none is buffered; each byte taken is counted once;
the byte handed out is the next one, as 0..255, and stays until uflow takes it; chunk data is read only up to what is left of the chunk and of the buffer; a size line is read only when the chunk is used up, as a hexadecimal number, and a negative one is
not used; after the data of a chunk exactly its line end is taken, checked; after the last chunk the trailer lines are taken up to an empty one and the connection is given up.'''
ASSUME = ['stream_socket::read, getc and getline behave as stated in P27', 'a byte read from the connection is 0..255']
NS = 'pfi::network::http::'


def member(prog, cls, names):
    t = prog.types.get(cls)
    if not t:
        return None
    lay = {}
    for m in t['m']:
        if m['n'] in names:
            lay[m['n']] = (m['off'], m['size'])
    return lay if len(lay) == len(names) else None


class Body(Induct):
    def __init__(self, prog, f, lay):
        Induct.__init__(self, prog, f)
        self.lay = lay

    def field(self, p, n):
        o, s = self.lay[n]
        return Formula.load(self, p, 'a0', o, s, 'i%d' % (8 * s))

    def gone(self, p):
        """the connection has been given up"""
        v = Formula.load(self, p, 'a0', self.lay['sock'][0], 8, 'ptr')
        return v == ('P', 'null', 0)

    def symbolic(self, r):
        return isinstance(r, tuple) and r[0] == 'buf'

    def need(self, p, c, msg, i):
        if not c:
            self.bad(p, msg, i)

    def fresh(self, p, *n):
        k = p.env.get('#k', 0) + 1
        p.env['#k'] = k
        return var(*(n + (k,)))

    def cast(self, p, i, op, a):
        if isinstance(a, R) and op == 'trunc' and i.ty == 'i8':
            return a        # a byte or EOF
        if isinstance(a, R) and op in ('sext', 'zext') and i.d.get('st') == 'i8' and i.ty == 'i32':
            at = a.atom()
            if at and at[0] == 'byte':
                return var('sext8', a.key()) if op == 'sext' else a
            if at and at[0] == 'getc':
                return var('sext8', a.key()) if op == 'sext' and False else a
        return Induct.cast(self, p, i, op, a)

    def inst(self, p, i):
        if i.op == 'select' and i.ty == 'ptr':
            c = self.val(p, i.ops[0])
            t = self.truth(p, c)
            if t is not None:
                p.env[i.id] = self.val(p, i.ops[1 if t else 2])
                return None
            out = []
            for v in (True, False):
                q = p.copy()
                self.addcond(q, c, v)
                q.env[i.id] = self.val(q, i.ops[1 if v else 2])
                out.append(q)
            return out
        if i.op == 'load' and i.ty != 'ptr':
            r = self.val(p, i.ops[0])
            if isinstance(r, tuple) and r[0] == 'P' and isinstance(r[1], str) and r[1].startswith('g:'):
                d = self.prog.globals.get(r[1][2:])
                if d and d.get('const') and 'ival' in d:
                    p.env[i.id] = num(d['ival'])
                    return None
        if i.op in ('landingpad', 'extractvalue', 'insertvalue'):
            p.env[i.id] = ('U',)
            return None
        return Induct.inst(self, p, i)

    def val(self, p, v):
        if isinstance(v, str) and (v.startswith('g:') or v.startswith('ce:')) and v not in p.env:
            return ('P', v, 0)
        return Induct.val(self, p, v)

    def fork(self, p, i, n, a):
        d = i.dem or ''
        if re.search(r'stream_socket::getc\(', d):
            c = self.fresh(p, 'getc')
            p.env[i.id] = c
            p.env['#facts'] = p.env.get('#facts', ()) + (c + num(1), num(255) - c)
            self.ongetc(p, i, c)
            return [p]
        if re.search(r'stream_socket::read\(', d):
            r = self.fresh(p, 'read')
            p.env[i.id] = r
            self.onread(p, i, self.ptr(a[1]), a[2], r)
            p.env['#facts'] = p.env.get('#facts', ()) + (r, a[2] - r)
            p.env['#nn'] = p.env.get('#nn', frozenset()) | frozenset((r.atom(),))
            return [p]
        if re.search(r'stream_socket::getline\(', d):
            ok = self.fresh(p, 'line')
            q = p.copy()
            p.env[i.id], q.env[i.id] = num(1), num(0)
            s = self.ptr(a[1])[0]
            p.env[('line', s)] = ok
            self.ongetline(p, i, ok)
            q.env[('noline', s)] = True
            q.env['#ended'] = True
            p.ev.append(('getline', i))
            q.ev.append(('getline', i))
            return [p, q]
        if re.search(r'shared_ptr<pfi::network::stream_socket.*::reset\(\)', d):
            r, o = self.ptr(a[0])
            p.log.append(('st', r, o, 8, ('P', 'null', 0)))
            p.ev.append(('reset', i))
            return [p]
        if re.search(r'shared_ptr<pfi::network::stream_socket.*::(operator bool|get|operator->|operator\*)\(', d):
            r, o = self.ptr(a[0])
            v = Formula.load(self, p, r, o, 8, 'ptr')
            p.env[i.id] = v if 'operator bool' not in d else ('cmp', 'ne', var('addr', v[1]), var('addr', 'null'))
            return [p]
        if re.search(r'vector<char.*>::(operator\[\]|at)\(', d) and isinstance(a[1], R):
            off = self.ptr(a[0])
            c = a[1].const()
            p.env[i.id] = ('P', ('buf', off[1]), int(c) if c is not None else a[1])
            return [p]
        if re.search(r'vector<char.*>::(data|front)\(', d):
            p.env[i.id] = ('P', ('buf', self.ptr(a[0])[1]), 0)
            return [p]
        if re.search(r'vector<char.*>::(size)\(', d):
            p.env[i.id] = num(self.lay['nbuf'])
            return [p]
        m = re.search(r'basic_string<char.*?>>::(length|size|empty)\(', d)
        if m:
            s = self.ptr(a[0])[0]
            L = p.env.get(('line', s))
            if L is None:
                raise Undecided('string')
            x = var('len', L.key())
            p.env['#nn'] = p.env.get('#nn', frozenset()) | frozenset((x.atom(),))
            p.env[i.id] = x if m.group(1) != 'empty' else ('cmp', 'eq', x, num(0))
            return [p]
        if re.search(r'basic_istringstream<char.*::basic_istringstream\(', d):
            p.env[('iss', self.ptr(a[0])[0])] = p.env.get(('line', self.ptr(a[1])[0])) if len(a) > 1 and isinstance(a[1], tuple) else None
            return [p]
        if re.search(r'istream::operator>>\(std::ios_base& \(\*\)', d):
            if 'hex' in str(i.ops[1]):
                p.env['#hex'] = True
            p.env[i.id] = a[0]
            return [p]
        m = re.search(r'istream::operator>>\((int|long|unsigned int|unsigned long)&\)', d)
        if m:
            r, o = self.ptr(a[1])
            x = self.fresh(p, 'size')
            if 'unsigned' in m.group(1):
                raise Undecided('unsigned size')
            sz = 4 if m.group(1) == 'int' else 8
            p.log.append(('st', r, o, sz, x))
            p.env['G:R'] = x
            p.env['#sizes'] = p.env.get('#sizes', ()) + (x.atom(),)
            if not p.env.get('#hex'):
                self.bad(p, 'the size of a chunk is not read as a hexadecimal number', i)
            p.env[i.id] = a[0]
            p.env['#parse'] = p.env.get('#parse', 0) + 1
            return [p]
        if re.search(r'(basic_ios|ios)<?.*::(fail|good|eof|bad|operator!|operator bool|operator void\*)\(', d):
            p.env[i.id] = self.fresh(p, 'state')
            return [p]
        m = re.search(r'char_traits<char>::(eof|to_int_type|to_char_type|eq_int_type|not_eof)\(', d)
        if m:
            t = m.group(1)
            if t == 'eof':
                p.env[i.id] = num(-1)
            elif t == 'eq_int_type':
                v = [self.through(p, x) for x in a[:2]]
                p.env[i.id] = ('cmp', 'eq', v[0], v[1])
            elif t in ('to_int_type', 'to_char_type'):
                p.env[i.id] = self.through(p, a[0])
            else:
                raise Undecided(t)
            return [p]
        if not d and i.d.get('cv') and a and a[0] == ('P', 'a0', 0):
            nm = slot(self.prog, self.f, i)
            if nm != 'underflow':
                raise Undecided('virtual call')
            return self.onunderflow(p, i)
        if n in ('strtol', 'strtoul', 'strtoll'):
            raise Undecided('strtol')
        if n == '__cxa_throw' or 'std::__throw' in n:
            p.env['#thrown'] = True
            p.env[i.id] = ('U',)
            return [p]
        m = re.search(r'::underflow\(\)|::uflow\(\)', d)
        if m and not i.iscall:
            return None
        if d.startswith('std::') or d.startswith('__') or n.startswith('__cxa') or 'http_exception' in d or n in ('operator new', 'operator delete'):
            if any(isinstance(x, tuple) and x and x[0] == 'P' and x[1] == 'a0' for x in a):
                raise Undecided('call of %s' % d[:60])
            if i.ty == 'ptr':
                p.env[i.id] = ('P', ('call', i.id), 0)
            elif i.ty != 'void':
                p.env[i.id] = self.fresh(p, 'call', i.id)
            return [p]
        return None

    def through(self, p, x):
        """the value behind a reference"""
        if isinstance(x, tuple) and x[0] == 'P':
            if isinstance(x[2], R) or self.symbolic(x[1]):
                return self.loadbyte(p, x[1], offr(x[2]), 1, None)
            return Formula.load(self, p, x[1], x[2], 4 if x[1] == 'a0' else 1, 'i32')
        return x

    def term(self, p, b, t, work, out):
        if t.op == 'ret' and p.env.get('#thrown'):
            return
        return Induct.term(self, p, b, t, work, out)


def slot(prog, f, i):
    """last name of the method called through a slot of f's own class"""
    d = f.defs.get(i.d.get('cv'))
    if d is None or d.op != 'load':
        return None
    g = f.defs.get(d.ops[0])
    off, base = 0, d.ops[0]
    if g is not None and g.op == 'getelementptr':
        off, base = g.d.get('off', 0), g.ops[0]
    m = re.match(r'^_ZN(.*)(5uflow|9underflow)Ev$', f.name)
    vt = prog.globals.get('_ZTVN' + m.group(1) + 'E') if m else None
    if not vt or not vt.get('agg'):
        return None
    a = vt['agg'][0]
    k = off // 8 + 2
    m = re.search(r'\d+([a-z_]+)Ev$', a[k]) if k < len(a) else None
    return m.group(1) if m else None


class Chunked(Body):
    """ghosts: R bytes left of the chunk, P..E buffered"""
    def begin(self):
        p = Path()
        F = lambda n: var('ld', 'a0', self.lay[n][0])
        C, P, E = F('chunk_rest'), F('buf_pos'), F('buf_end')
        p.env['#facts'] = (C, P, E - P, num(self.lay['nbuf']) - E)
        p.env['#nn'] = frozenset((C.atom(), P.atom(), E.atom()))
        p.env['G:R'], p.env['G:P'], p.env['G:E'] = C, P, E
        p.env['#due'] = False       # the line end of the chunk has to be taken
        return p

    def idle(self, p, i):
        self.need(p, not self.gone(p), 'the connection is used after it was given up', i)
        self.need(p, self.implies(p, p.env['G:P'] - p.env['G:E']), 'the connection is read although bytes are still buffered', i)

    def settle(self, p):
        """has the chunk just been used up?"""
        d = p.env['#due']
        if d:
            t = True if self.equal(p, p.env['G:R'], num(0)) else (False if self.implies(p, p.env['G:R'] - num(1)) else None)
            return t
        return False

    def ongetc(self, p, i, c):
        t = self.settle(p)
        if not t:
            self.bad(p, 'a byte is taken from the connection although the chunk has not just ended', i)
            return
        p.env['#foot'] = p.env.get('#foot', ()) + (c,)

    def onread(self, p, i, dst, n, r):
        if self.settle(p) or p.env['#due'] and not self.implies(p, p.env['G:R'] - num(1)):
            self.footer(p, i)
        self.idle(p, i)
        if dst[0][0] != 'buf':
            raise Undecided('buffer')
        off = offr(dst[1])
        self.need(p, self.implies(p, n), 'data of a negative size may be read', i)
        self.need(p, self.implies(p, p.env['G:R'] - n), 'more bytes may be read than are left of the chunk', i)
        self.need(p, self.implies(p, num(self.lay['nbuf']) - off - n), 'more bytes may be read than the buffer holds', i)
        p.env['G:R'] = p.env['G:R'] - n
        p.env['G:P'], p.env['G:E'] = off, off + r
        p.env['#due'] = True
        p.env['#short'] = (n, r)

    def footer(self, p, i):
        """the line end after the data of a chunk has been taken and checked"""
        ft = p.env.get('#foot', ())
        ok = False
        if len(ft) == 1:
            ok = self.equal(p, ft[0], num(10))
        elif len(ft) == 2:
            ok = self.equal(p, ft[0], num(13)) and self.equal(p, ft[1], num(10))
        self.need(p, ok, 'the line end after the data of a chunk is not taken or not checked' if len(ft) < 3 else 'more than the line end is taken after the data of a chunk', i)
        p.env['#due'] = False
        p.env['#foot'] = ()

    def ongetline(self, p, i, ok):
        if p.env['#due']:
            t = self.settle(p)
            if t:
                self.footer(p, i)
            elif t is None:
                self.bad(p, 'a line is read although the chunk may not have ended', i)
        self.idle(p, i)
        self.need(p, self.equal(p, p.env['G:R'], num(0)), 'a line is read although bytes of the chunk are left', i)
        if p.env.get('#sizes'):
            p.env['#trailer'] = ok

    def put(self, p, root, off, sz, x, i):
        raise Undecided('store')

    def onunderflow(self, p, i):
        """underflow as stated: the next byte stays, or the end with nothing buffered"""
        out = []
        for byte in (True, False):
            q = p.copy()
            v = {}
            for n in ('chunk_rest', 'buf_pos', 'buf_end'):
                o, s = self.lay[n]
                v[n] = self.fresh(q, n)
                q.log.append(('st', 'a0', o, s, v[n]))
            C, P, E = v['chunk_rest'], v['buf_pos'], v['buf_end']
            q.env['#facts'] = q.env['#facts'] + (C, P, num(self.lay['nbuf']) - E) + ((E - P - num(1),) if byte else (P - E,))
            q.env['#nn'] = q.env['#nn'] | frozenset((C.atom(), P.atom()))
            q.env['G:R'], q.env['G:P'], q.env['G:E'] = C, P, E
            q.env['#ended'] = not byte
            q.env[i.id] = var('byte', ('buf', self.lay['buf'][0]), P.key(), 0) if byte else num(-1)
            out.append(q)
        return out


def chunked(e, f, p, name):
    E = p.env
    i = f.blocks[0][0]
    need = lambda c, m: e.need(p, c, m, i)
    C, P, En = e.field(p, 'chunk_rest'), e.field(p, 'buf_pos'), e.field(p, 'buf_end')
    if E.get('#sizes') and not any(x[0] == 'read' for x in p.ev):
        pass
    short = False
    if E.get('#short'):
        n, r = E['#short']
        short = e.implies(p, n - r - num(1))
        full = e.equal(p, n, r)
        if not short and not full:
            ne = any(c[0] == 'cmp' and isinstance(c[2], R) and isinstance(c[3], R) and ((c[2] - c[3]).same(n - r) or (c[3] - c[2]).same(n - r)) and (c[1] if v else NEG[c[1]]) in ('ne', 'lt', 'gt') for c, v in p.conds)
            short = ne
            need(ne, 'whether all of the data was read is not tested')
        if full:
            t = e.settle(p)
            if t is True or t is None:
                e.footer(p, i)
    r = p.ret
    a = r.atom() if isinstance(r, R) else None
    if isinstance(r, R) and r.const() is not None:
        need(r.const() == -1, 'a constant is returned as a byte')
        need(short or E.get('#ended') or e.implies(p, P - En), 'the end is reported although bytes are buffered')
        dead = e.gone(p) or cond_null(p, e)
        need(dead or short or E.get('#ended'), 'the end is reported although the last chunk has not been read')
        if E.get('#sizes') and not E.get('#short') and not E.get('#ended'):
            # the last chunk: trailer up to an empty line
            L = E.get('#trailer')
            need(L is not None and e.equal(p, var('len', L.key()), num(0)), 'the lines after the last chunk are not taken up to the empty one')
        need(not E.get('#short') or dead, 'reading may go on after the connection ended within a chunk')
        return
    if a and a[0] == 'sext8':
        need(False, 'bytes above 127 are returned as negative numbers')
        return
    if not a or a[0] != 'byte':
        raise Undecided('result')
    off = R(dict(a[2][0]), dict(a[2][1]))
    need(e.equal(p, off, E['G:P']), 'the byte returned is not the next one')
    need(e.implies(p, E['G:E'] - E['G:P'] - num(1)), 'a byte is returned although none is buffered')
    need(e.equal(p, P, E['G:P'] + num(1 if name == 'uflow' else 0)) , 'the position in the buffer is not that of the next byte')
    need(e.equal(p, En, E['G:E']), 'the end of the buffered bytes is wrong')
    need(e.equal(p, C, E['G:R']), 'the count of what is left of the chunk is wrong')


def cond_null(p, e):
    """the connection is known to be absent"""
    s = var('addr', ('*', 'a0', e.lay['sock'][0])) - var('addr', 'null')
    for c, v in p.conds:
        if c[0] == 'cmp' and isinstance(c[2], R) and isinstance(c[3], R):
            z = c[2] - c[3]
            if (z.same(s) or (-z).same(s)) and (c[1] if v else NEG[c[1]]) == 'eq':
                return True
    return False


class Counted(Body):
    """ghosts: N bytes announced and not taken"""
    def begin(self):
        p = Path()
        F = lambda n: var('ld', 'a0', self.lay[n][0])
        N, B = F('rest'), F('buf')
        p.env['#facts'] = (B + num(1), num(255) - B)
        p.env['G:N'] = N
        p.env['#got'] = None
        return p

    def ongetc(self, p, i, c):
        self.need(p, not self.gone(p) and not cond_null(p, self), 'the connection is used after it was given up', i)
        B = var('ld', 'a0', self.lay['buf'][0])
        self.need(p, p.env['#got'] is None and self.equal(p, B, num(-1)), 'a byte is taken from the connection although one is buffered', i)
        self.need(p, self.implies(p, p.env['G:N'] - num(1)), 'a byte is taken from the connection although none is announced', i)
        p.env['G:N'] = p.env['G:N'] - num(1)
        p.env['#got'] = c

    def onread(self, p, i, dst, n, r):
        raise Undecided('read')

    def onunderflow(self, p, i):
        q = p
        o, s = self.lay['buf']
        x = self.fresh(q, 'getc')
        q.log.append(('st', 'a0', o, s, x))
        o, s = self.lay['rest']
        y = self.fresh(q, 'rest')
        q.log.append(('st', 'a0', o, s, y))
        q.env['G:N'] = y
        q.env['#got'] = x
        q.env[i.id] = x
        return [q]

    def ongetline(self, p, i, ok):
        raise Undecided('getline')


def counted(e, f, p, name):
    E = p.env
    i = f.blocks[0][0]
    need = lambda c, m: e.need(p, c, m, i)
    N, B = e.field(p, 'rest'), e.field(p, 'buf')
    B0 = var('ld', 'a0', e.lay['buf'][0])
    nxt = E['#got'] if E['#got'] is not None else B0
    r = p.ret
    if not isinstance(r, R):
        raise Undecided('result')
    if E['#got'] is None and e.equal(p, B0, num(-1)):
        need(e.equal(p, r, num(-1)), 'something is returned although there is no byte')
        need(e.gone(p) or cond_null(p, e) or e.implies(p, -N), 'the end is reported although bytes are announced')
    else:
        if r.atom() and r.atom()[0] == 'sext8':
            need(False, 'bytes above 127 are returned as negative numbers')
        else:
            need(e.equal(p, r, nxt), 'the byte returned is not the next one')
    need(e.equal(p, B, num(-1) if name == 'uflow' or (E['#got'] is None and e.equal(p, B0, num(-1))) else nxt), 'the buffered byte is wrong afterwards')
    need(e.equal(p, N, E['G:N']) or (e.gone(p) and e.implies(p, -E['G:N'])), 'the number of announced bytes is not counted down by the bytes taken')
    if e.gone(p):
        need(e.implies(p, -E['G:N']), 'the connection is given up although bytes are announced')


KINDS = [(NS + 'basic_httpbody_chunked_streambuf<char, std::char_traits<char>>', ('sock', 'chunk_rest', 'buf', 'buf_pos', 'buf_end'), Chunked, chunked),
         (NS + 'basic_httpbody_streambuf<char, std::char_traits<char>>', ('sock', 'rest', 'buf'), Counted, counted)]


def bufsize(prog, cls, off):
    for f in prog.funcs:
        if f.dem.startswith(cls + '::' + cls.split('::')[-1].split('<')[0]) or f.dem.startswith(cls) and '::basic_' in f.dem[len(cls):]:
            for i in f.insts():
                if i.iscall and re.search(r'vector<char.*>::vector\(unsigned long', i.dem or ''):
                    d = f.defs.get(i.ops[0])
                    if d is not None and d.op == 'getelementptr' and d.d.get('off') == off and str(i.ops[1]).startswith('c:'):
                        return int(i.ops[1][2:])
    return None


def tname(prog, cls):
    for c in (cls, cls.replace('>>', '> >')):
        if c in prog.types:
            return c
    b = cls.split('<')[0]
    for c in prog.types:
        if c.split('<')[0] == b:
            return c
    return cls


def check(ctx):
    prog = ctx.prog('http')
    for cls, names, E, rule in KINDS:
        short = cls.split('::')[2].split('<')[0]
        lay = member(prog, tname(prog, cls), names)
        W = 'network/http/base.cpp'
        if lay and 'chunk_rest' in names:
            lay['nbuf'] = bufsize(prog, cls, lay['buf'][0])
        if not lay or lay.get('nbuf', 1) is None:
            ctx.ob(short, W)
            ctx.count('undecided')
            ctx.samples.append('undecided %s: members not found' % short)
            continue
        for f in prog.funcs:
            m = re.match(re.escape(cls) + r'::(underflow|uflow)\(\)', f.dem)
            if not m:
                continue
            name = m.group(1)
            W = f.blocks[0][0].where() or f.file
            ctx.ob('%s::%s' % (short, name), W)
            e = E(prog, f, lay)
            try:
                n = 0
                for p in e.explore(0, e.begin()):
                    if p.end == 'ret':
                        n += 1
                        rule(e, f, p, name)
                ctx.count('paths', n)
                if not n:
                    raise Undecided('no return')
                for i, msg in dict((str(x[1]), x) for x in e.problems).values():
                    ctx.bad('body-%s-%s' % ('chunked' if E is Chunked else 'counted', name), f, (i.where() or W) if i is not None else W, '%s::%s: %s' % (short, name, msg))
            except Undecided as x:
                ctx.count('undecided')
                ctx.samples.append('undecided %s::%s: %s' % (short, name, x))

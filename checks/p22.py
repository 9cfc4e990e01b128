"""HTTP messages: their form on the wire, the choice of their body, and their header fields."""
from induct import *

RULE = '''Value numbering of the functions of http::request, http::response and http::header, strings as sequences of pieces (literals, members, numbers, the body):
send puts the start line, then the header, then the body, each exactly in the stated form and order, tests each result, and adds Content-Length exactly under the stated condition with the length of the body;
the constructors from a socket make the stream of the kind which the header announces, on the same socket, with the announced length; header functions visit the fields from the first on, one by one, and act on the first whose name equals ignoring case, or say
that there is none; the comparison compares lengths and then every pair of characters through tolower.'''
ASSUME = ['stream_socket::puts and flush behave as stated in P27', 'lexical_cast of a number gives its decimal form', 'a header field name and value contain no line end']
NS = 'pfi::network::http::'


def lit(prog, g):
    d = prog.globals.get(g[2:]) if isinstance(g, str) and g.startswith('g:') else None
    if d and d.get('const') and d.get('t') == '[1 x i8]' and not d.get('init'):
        return ''
    if not d or d.get('esz') != 1:
        return None
    if d.get('init') is None:
        return None
    b = bytes(x & 255 for x in d['init'])
    return b.split(b'\0')[0].decode('latin1')


def norm(ps):
    out = []
    for x in ps:
        if x[0] == 'lit' and not x[1]:
            continue
        if x[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + x[1])
        else:
            out.append(x)
    return tuple(out)


class Msg(Induct):
    def pieces(self, p, v):
        if isinstance(v, R) and v.const() is not None:
            return (('lit', chr(int(v.const()) & 255)),)
        r, o = self.ptr(v)
        if isinstance(r, str) and r.startswith('g:'):
            s = lit(self.prog, r)
            if s is not None:
                return norm((('lit', s),))
            return (('glob', r),)
        k = ('s', r, o)
        return p.env.get(k, (('mem', r, o if not isinstance(o, R) else o.key()),))

    def putp(self, p, v, ps):
        r, o = self.ptr(v)
        p.env[('s', r, o if not isinstance(o, R) else o.key())] = norm(ps)

    def val(self, p, v):
        if isinstance(v, str) and v.startswith('ce:') and v not in p.env:
            return ('P', v, 0)
        return Induct.val(self, p, v)

    def inst(self, p, i):
        if i.op in ('landingpad', 'extractvalue', 'insertvalue'):
            p.env[i.id] = ('U',)
            return None
        return Induct.inst(self, p, i)

    def fresh(self, p, *n):
        k = p.env.get('#k', 0) + 1
        p.env['#k'] = k
        return var(*(n + (k,)))

    def both(self, p, i, mk):
        q = p.copy()
        p.env[i.id], q.env[i.id] = num(1), num(0)
        mk(p, True)
        mk(q, False)
        return [p, q]

    def scalar(self, p, v):
        """what a reference to a number or object refers to"""
        r, o = self.ptr(v)
        if isinstance(r, str) and self.f.defs.get(r) is not None and self.f.defs[r].op == 'alloca':
            for sz in (8, 4, 2):
                try:
                    x = Formula.load(self, p, r, o, sz, 'i%d' % (8 * sz))
                    if isinstance(x, R) and not (x.atom() and x.atom()[0] == 'undef'):
                        return ('val', x.key())
                except Undecided:
                    pass
        if ('s', r, o) in p.env:
            return ('val', p.env[('s', r, o)])
        return ('at', r, o)

    def fork(self, p, i, n, a):
        d = i.dem or ''
        if re.search(r'stream_socket::puts\(', d):
            ps = self.pieces(p, a[1])
            return self.both(p, i, lambda q, ok: q.ev.append(('puts', i, ps, ok)))
        if re.search(r'stream_socket::write\(', d):
            raise Undecided('write')
        if re.search(r'stream_socket::flush\(', d):
            p.env[i.id] = self.fresh(p, 'flush')
            p.ev.append(('flush', i, p.env[i.id]))
            return [p]
        if re.search(r'stream_socket::getline\(', d):
            self.putp(p, a[1], (('line', len(p.ev)),))
            return self.both(p, i, lambda q, ok: q.ev.append(('getline', i, ok)))
        if re.search(r'header::has_key\(', d):
            ps = self.pieces(p, a[1])
            return self.both(p, i, lambda q, ok: q.ev.append(('has', i, ps, ok)))
        if re.search(r'header::operator\[\]\(', d) or re.search(r'header::get\(', d):
            ps = self.pieces(p, a[1])
            p.env[i.id] = ('P', ('field', ps), 0)
            return [p]
        if re.search(r'header::set\(', d):
            p.ev.append(('hset', i, self.pieces(p, a[1]), self.pieces(p, a[2])))
            return [p]
        if re.search(r'header::send\(', d):
            p.ev.append(('head', i))
            return [p]
        if re.search(r'header::(header|operator=|~header)\(', d):
            p.ev.append(('header', i, a))
            if i.ty == 'ptr':
                p.env[i.id] = a[0]
            return [p]
        if re.search(r'\bcicmp\(', d):
            x, y = self.pieces(p, a[0]), self.pieces(p, a[1])
            return self.both(p, i, lambda q, ok: q.ev.append(('ci', i, x, y, ok)))
        m = re.search(r'::(basic_\w*stream)<.*>::\1\(', d)
        if m and m.group(1).startswith(('basic_http', 'basic_socketstream')):
            p.ev.append(('stream', i, m.group(1), a))
            p.env[('new', self.ptr(a[0])[0])] = (m.group(1), tuple(a[1:]))
            return [p]
        m = re.search(r'shared_ptr<std::iostream.*?>::shared_ptr<pfi::network::(?:http::)?(basic_\w+)<', d)
        if m:
            p.ev.append(('own', i, m.group(1), self.ptr(a[1])[0]))
            return [p]
        if 'lexical_cast<' in d:
            if re.search(r'lexical_cast<std::__cxx11::basic_string', d):
                self.putp(p, a[0], (('cast',) + self.scalar(p, a[1]),))
                return [p]
            x = self.ptr(a[0])
            p.env[i.id] = var('num', self.pieces(p, a[0]))
            return [p]
        if re.search(r'std::operator\+<char', d):
            self.putp(p, a[0], self.pieces(p, a[1]) + self.pieces(p, a[2]))
            return [p]
        m = re.search(r'bool std::operator(==|!=)<char', d)
        if m:
            x, y = self.pieces(p, a[0]), self.pieces(p, a[1])
            eq = m.group(1) == '=='
            return self.both(p, i, lambda q, ok: q.ev.append(('same', i, x, y, ok == eq)))
        if re.search(r'basic_(string)?stringstream<char.*::str\(\) const', d) or re.search(r'basic_stringstream<char.*>::str\(', d):
            self.putp(p, a[0], (('body',),))
            return [p]
        m = re.match(r'^std::__cxx11::basic_string<char.*?>>::(~?\w+|operator[^(]*)\((.*)', d)
        if m:
            op = m.group(1)
            if op == '~basic_string':
                return [p]
            if op == 'basic_string':
                self.putp(p, a[0], self.pieces(p, a[1]) if len(a) > 1 and isinstance(a[1], tuple) and a[1][0] == 'P' and not m.group(2).startswith(')') else ())
                return [p]
            ps = self.pieces(p, a[0])
            if op in ('length', 'size'):
                p.env[i.id] = self.strlen(p, ps)
                return [p]
            if op == 'empty':
                p.env[i.id] = ('cmp', 'eq', self.strlen(p, ps), num(0))
                return [p]
            if op in ('operator+=', 'append', 'push_back') and len(a) == 2:
                self.putp(p, a[0], ps + self.pieces(p, a[1]))
                if i.ty == 'ptr':
                    p.env[i.id] = a[0]
                return [p]
            if op in ('operator=', 'assign') and len(a) == 2:
                r = self.ptr(a[0])[0]
                v = self.pieces(p, a[1])
                if isinstance(r, tuple) and r[0] == 'field':
                    p.ev.append(('hset', i, r[1], v))
                self.putp(p, a[0], v)
                if i.ty == 'ptr':
                    p.env[i.id] = a[0]
                return [p]
            if op in ('c_str', 'data'):
                p.env[i.id] = ('P', ('chars', ps), 0)
                return [p]
            if op in ('operator[]', 'at', 'begin', 'end'):
                p.env[i.id] = ('P', ('chr', i.id), 0)
                return [p]
            raise Undecided('string operation')
        if n in ('sscanf', '__isoc23_sscanf', '__isoc99_sscanf'):
            p.env[i.id] = self.fresh(p, 'scan')
            p.ev.append(('scan', i, self.pieces(p, a[1]), p.env[i.id], a[2:]))
            for k, x in enumerate(a[2:]):
                r, o = self.ptr(x)
                p.log.append(('st', r, o, 4, var('scanned', k)))
            return [p]
        if n == '__cxa_throw':
            p.ev.append(('throw', i))
            return [p]
        if n == '__dynamic_cast':
            p.env[i.id] = ('P', 'ss', 0)
            return [p]
        if d.startswith('pfi::network::') and not re.search(r'uri|http_exception', d):
            raise Undecided('call of %s' % d[:60])
        if i.ty == 'ptr':
            p.env[i.id] = ('P', ('call', i.id), 0)
        elif i.ty != 'void':
            p.env[i.id] = self.fresh(p, 'call', i.id)
        return [p] if not n.startswith('llvm.') else None

    def strlen(self, p, ps):
        if all(x[0] == 'lit' for x in ps):
            return num(sum(len(x[1]) for x in ps))
        x = var('len', ps)
        p.env['#nn'] = p.env.get('#nn', frozenset()) | frozenset((x.atom(),))
        return x

    def term(self, p, b, t, work, out):
        if t.op == 'unreachable':
            p.end = 'throw' if any(x[0] == 'throw' for x in p.ev) else 'unreachable'
            out.append(p)
            return
        return Induct.term(self, p, b, t, work, out)


def offsets(prog, cls):
    t = prog.types.get(cls)
    return dict((m['n'], m['off']) for m in t['m']) if t else {}


def fmt(ps):
    return ''.join(repr(x[1])[1:-1] if x[0] == 'lit' else '<%s>' % (x[0] if x[0] in ('body',) else 'value') for x in ps)[:60]


def uses(ctx, f, rule, W, what):
    return lambda msg, i=None: ctx.bad(rule, f, (i.where() if i is not None else '') or W, '%s: %s' % (what, msg))


def sending(ctx, prog, f, cls):
    short = cls.split('::')[-1]
    W = f.blocks[0][0].where() or f.file
    ctx.ob('%s::send' % short, W)
    bad = uses(ctx, f, 'send-' + short, W, 'http::%s::send' % short)
    lay = offsets(prog, cls)
    M = lambda n, o=0: ('mem', 'a0', lay[n] + o)
    C = lambda n, o=0: ('cast', 'at', 'a0', lay[n] + o)
    if short == 'request':
        line = (M('method_'), ('lit', ' '), C('uri_'), ('lit', ' HTTP/'), C('version_'), ('lit', '.'), C('version_', 4), ('lit', '\r\n'))
    else:
        line = (('lit', 'HTTP/'), C('version_'), ('lit', '.'), C('version_', 4), ('lit', ' '), C('code_'), ('lit', ' '), M('reason_'), ('lit', '\r\n'))
    body = (('body',),)
    CL = (('lit', 'Content-Length'),)
    n = 0
    for p in Msg(prog, f).explore(0, None):
        if p.end not in ('ret', 'throw'):
            continue
        n += 1
        seq = [x for x in p.ev if x[0] in ('puts', 'head', 'flush')]
        e = Msg(prog, f)
        L = e.strlen(p, body)
        nonempty = e.implies(p, L - num(1))
        empty = e.implies(p, -L)
        stage = 0
        failed = False
        for x in seq:
            if failed:
                bad('sending goes on after a failed transfer', x[1])
                break
            if stage == 0:
                if x[0] != 'puts' or x[2] != line:
                    if x[0] == 'puts' and any(y[0] in ('glob',) for y in x[2]):
                        raise Undecided('start line')
                    bad('the start line is %s' % (fmt(x[2]) if x[0] == 'puts' else 'not sent first'), x[1])
                    break
                stage = 1
            elif stage == 1:
                if x[0] != 'head':
                    bad('the header does not follow the start line', x[1])
                    break
                # Content-Length
                before = p.ev[:p.ev.index(x)]
                sets = [y for y in before if y[0] == 'hset']
                has = [y for y in before if y[0] == 'has' and y[2] == CL]
                for y in sets:
                    if y[2] != CL:
                        bad('a field other than Content-Length is changed', y[1])
                    elif not (len(y[3]) == 1 and y[3][0][:2] == ('cast', 'val') and y[3][0][2] == L.key()):
                        bad('the Content-Length added is not the length of the body', y[1])
                    elif not has or has[-1][3]:
                        bad('a Content-Length given by the user is replaced', y[1])
                if not sets and has and not has[-1][3] and not empty:
                    bad('a body is sent without a Content-Length', x[1])
                if not sets and not has and not empty:
                    bad('a body may be sent without a Content-Length', x[1])
                stage = 2
            elif stage == 2 and x[0] == 'puts':
                if x[2] != body:
                    bad('the header is followed by something other than the body', x[1])
                    break
                stage = 3
            elif stage in (2, 3) and x[0] == 'flush':
                if stage == 2 and not empty:
                    bad('the body is not sent', x[1])
                stage = 4
            else:
                bad('something is sent twice or after the flush', x[1])
                break
            if x[0] == 'puts' and not x[3]:
                failed = True
        if failed and p.end == 'ret':
            bad('a failed transfer is not reported')
        if p.end == 'ret' and not failed and 0 < stage < 4:
            bad('the message is not complete or not flushed')
        fl = [x for x in seq if x[0] == 'flush']
        if fl:
            neg = e.implies(p, -fl[-1][2] - num(1))
            pos = e.implies(p, fl[-1][2])
            if p.end == 'ret' and not neg:
                bad('a failed flush is not reported', fl[-1][1])
            if p.end == 'throw' and neg:
                bad('a successful flush is reported as a failure', fl[-1][1])
        elif p.end == 'throw' and seq and not failed:
            bad('a failure is reported although nothing failed', seq[-1][1])
    ctx.count('paths', n)
    if not n:
        raise Undecided('no path')


def fields(ctx, prog, f):
    """header::send"""
    W = f.blocks[0][0].where() or f.file
    ctx.ob('header::send', W)
    bad = uses(ctx, f, 'send-header', W, 'http::header::send')
    e = Fields(prog, f)
    n = 0
    for p in e.explore(0, e.begin()):
        if p.end not in ('ret', 'throw'):
            continue
        n += 1
        pts = [x for x in p.ev if x[0] == 'puts']
        if p.end == 'ret':
            if any(not x[3] and x[2] != (('lit', '\r\n'),) for x in pts):
                bad('a failed transfer is not reported')
            if not pts or pts[-1][2] != (('lit', '\r\n'),):
                bad('the header does not end with an empty line')
            if len(pts) > 1 and pts[-2][2] == (('lit', '\r\n'),):
                bad('an empty line is sent twice', pts[-1][1])
            i = p.env.get('G:i')
            if not e.equal(p, i, e.count(p)):
                bad('not every field is sent')
    for i, msg in dict((str(x[1]), x) for x in e.problems).values():
        bad(msg, i)
    ctx.count('paths', n)
    if not n:
        raise Undecided('no path')


class Fields(Msg):
    """loops over the fields; G:i fields visited"""
    what = 'send'

    def begin(self):
        p = Path()
        p.env['G:i'] = num(0)
        p.env['#facts'] = (var('nfields'),)
        p.env['#nn'] = frozenset((('nfields',),))
        return p

    def count(self, p):
        return var('nfields')

    def atback(self, r, h):
        for x in r.ev:
            if x[0] == 'puts' and not x[3]:
                self.bad(r, 'sending goes on after a failed transfer', x[1])

    def elem(self, ps):
        """index and part of the field a string is"""
        if len(ps) == 1 and ps[0][0] == 'mem' and isinstance(ps[0][1], tuple) and ps[0][1][0] == 'elem':
            return ps[0][1][1], ps[0][2]
        return None, None

    def put(self, p, root, off, sz, x, i):
        raise Undecided('store')

    def fork(self, p, i, n, a):
        d = i.dem or ''
        m = re.search(r'vector<std::pair<std::__cxx11::basic_string.*>>::(operator\[\]|at|size|begin|end|empty|erase|push_back|emplace_back|back|insert)\(', d)
        if m and isinstance(a[0], tuple):
            op = m.group(1)
            if op == 'size':
                p.env[i.id] = var('nfields')
                return [p]
            if op == 'empty':
                p.env[i.id] = ('cmp', 'eq', var('nfields'), num(0))
                return [p]
            if op in ('operator[]', 'at') and isinstance(a[1], R):
                if not (self.implies(p, a[1]) and self.implies(p, var('nfields') - a[1] - num(1))):
                    self.bad(p, 'a field past the last one is used', i)
                p.env[i.id] = ('P', ('elem', a[1].key()), 0)
                return [p]
            if op in ('begin', 'end'):
                p.env[i.id] = ('P', 'fields', 0 if op == 'begin' else var('nfields') * num(64))
                return [p]
            if op == 'erase':
                p.ev.append(('erase', i, a[1:]))
                p.env[i.id] = ('P', ('call', i.id), 0)
                return [p]
            if op in ('push_back', 'emplace_back', 'insert'):
                p.ev.append(('add', i))
                if i.ty == 'ptr':
                    p.env[i.id] = ('P', ('added',), 0)
                return [p]
            if op == 'back':
                p.env[i.id] = ('P', ('added',), 0) if any(x[0] == 'add' for x in p.ev) else ('P', ('elem', (var('nfields') - num(1)).key()), 0)
                return [p]
        if re.search(r'__normal_iterator<.*>::(operator->|operator\*)\(', d) or re.search(r'__normal_iterator<.*>::operator\+\+\(', d) or re.search(r'operator(!=|==)<.*__normal_iterator', d):
            return self.iter(p, i, a, d)
        if re.search(r'__normal_iterator<.*>::__normal_iterator<', d):
            self.setit(p, a[0], self.getit(p, a[1]))
            return [p]
        if re.search(r'\bcicmp\(', d):
            x, y = self.pieces(p, a[0]), self.pieces(p, a[1])
            for s, o in ((x, y), (y, x)):
                k, part = self.elem(s)
                if k is not None and part == 0 and o == (('mem', 'a1', 0),):
                    k = R(dict(k[0]), dict(k[1]))
                    if not self.equal(p, k, p.env['G:i']):
                        self.bad(p, 'the fields are not visited one after another from the first on', i)
                    q = p.copy()
                    p.env[i.id], q.env[i.id] = num(1), num(0)
                    p.env['#found'] = k
                    q.env['G:i'] = q.env['G:i'] + num(1)
                    return [p, q]
            raise Undecided('comparison')
        if self.what == 'send' and re.search(r'stream_socket::puts\(', d):
            ps = self.pieces(p, a[1])
            if ps != (('lit', '\r\n'),):
                ok = len(ps) == 4 and ps[1] == ('lit', ': ') and ps[3] == ('lit', '\r\n')
                k1, p1 = self.elem(ps[:1])
                k2, p2 = self.elem(ps[2:3])
                if not ok or k1 is None or k2 is None or k1 != k2 or p1 != 0 or p2 != 32:
                    if k1 is None and k2 is None and not any(x[0] == 'lit' for x in ps):
                        raise Undecided('line')
                    self.bad(p, 'a field is not sent as name, colon, space, value, line end', i)
                else:
                    k = R(dict(k1[0]), dict(k1[1]))
                    if not self.equal(p, k, p.env['G:i']):
                        self.bad(p, 'the fields are not sent one after another from the first on', i)
                q = p.copy()
                p.env[i.id], q.env[i.id] = num(1), num(0)
                p.ev.append(('puts', i, ps, True))
                q.ev.append(('puts', i, ps, False))
                p.env['G:i'] = p.env['G:i'] + num(1)
                q.env['G:i'] = q.env['G:i'] + num(1)
                return [p, q]
        return Msg.fork(self, p, i, n, a)

    # iterators are kept in memory as the distance (64 bytes per field) from the first
    def getit(self, p, v):
        r, o = self.ptr(v)
        x = Formula.load(self, p, r, o, 8, 'ptr')
        if not (isinstance(x, tuple) and x[0] == 'P' and x[1] == 'fields'):
            raise Undecided('iterator')
        return x

    def setit(self, p, v, x):
        r, o = self.ptr(v)
        p.log.append(('st', r, o, 8, x))

    def iter(self, p, i, a, d):
        if 'operator++' in d:
            x = self.getit(p, a[0])
            y = ('P', 'fields', simp(offr(x[2]) + num(64)))
            self.setit(p, a[0], y)
            if i.ty == 'ptr':
                p.env[i.id] = a[0]
            return [p]
        m = re.search(r'operator(!=|==)<', d)
        if m:
            x, y = self.getit(p, a[0]), self.getit(p, a[1])
            p.env[i.id] = ('cmp', 'ne' if m.group(1) == '!=' else 'eq', (offr(x[2]) - offr(y[2])) / num(64), num(0))
            return [p]
        x = self.getit(p, a[0])
        k = offr(x[2]) / num(64)
        if not self.implies(p, var('nfields') - k - num(1)):
            self.bad(p, 'a field past the last one is used', i)
        p.env[i.id] = ('P', ('elem', k.key()), 0)
        return [p]


def simp(r):
    c = r.const()
    return int(c) if c is not None else r


class Lookup(Fields):
    what = 'lookup'


def erasemore(ctx, f):
    """the search goes on after a field was erased; loops steered by a flag or counter are left to the exploration"""
    for h, body in f.loops().items():
        ins = [i for b in body for i in f.blocks[b]]
        if any(i.op == 'phi' for i in ins):
            continue
        br = [i for i in ins if i.op == 'br' and len(f.succs(i.blk, exceptional=False)) > 1]
        if not all(f.defs.get(i.ops[0]) is not None and f.defs[i.ops[0]].iscall for i in br):
            continue
        for i in ins:
            if i.iscall and re.search(r'vector<std::pair<.*>>::erase\(', i.dem or ''):
                ctx.bad('header-erase', f, i.where(), 'http::header::erase: the search goes on after a field was erased, so several may go')
                return


def lookup(ctx, prog, f, name):
    W = f.blocks[0][0].where() or f.file
    const = f.dem.rstrip().endswith('const')
    ctx.ob('header::%s%s' % (name, ' const' if const else ''), W)
    if name == 'erase':
        erasemore(ctx, f)
    bad = uses(ctx, f, 'header-' + {'operator[]': 'index'}.get(name, name), W, 'http::header::%s' % name)
    e = Lookup(prog, f)
    n = 0
    N = var('nfields')
    for p in e.explore(0, e.begin()):
        if p.end != 'ret':
            continue
        n += 1
        k = p.env.get('#found')
        if k is None and not e.equal(p, p.env['G:i'], N):
            bad('the search ends before the last field')
        r = p.ret
        if name == 'has_key':
            t = e.truth(p, r)
            if t is None:
                raise Undecided('result')
            if t != (k is not None):
                bad('a field is reported %s' % ('missing although it was found' if k is not None else 'present although none was found'))
        elif name == 'operator[]':
            if k is not None:
                if r[1][0] == 'elem':
                    j = R(dict(r[1][1][0]), dict(r[1][1][1]))
                    if not e.equal(p, j, k) or r[2] != 32:
                        bad('the value returned is not that of the field found')
                else:
                    bad('the value returned is not that of the field found')
                if any(x[0] == 'add' for x in p.ev):
                    bad('a field is added although one was found')
            elif const:
                if any(x[0] == 'add' for x in p.ev) or r[1][0] == 'elem':
                    bad('looking up a missing field gives another one')
            else:
                adds = [x for x in p.ev if x[0] == 'add']
                if len(adds) != 1:
                    bad('a missing field is not added once')
                elif r != ('P', ('added',), 32):
                    bad('the value returned is not that of the field added')
        elif name == 'erase':
            er = [x for x in p.ev if x[0] == 'erase']
            if (k is not None) != bool(er):
                bad('the field found is not erased' if k is not None else 'a field of another name is erased')
            if len(er) > 1:
                raise Undecided('erase')
            for x in er:
                a = x[2]
                if len(a) != 1:
                    raise Undecided('erase')
                v = a[0] if a[0][1] == 'fields' else None
                if v is None:
                    try:
                        v = e.getit(p, a[0])
                    except Undecided:
                        raise
                if k is not None and not e.equal(p, offr(v[2]), k * num(64)):
                    bad('the field erased is not the one found', x[1])
    for i, msg in dict((str(x[1]), x) for x in e.problems).values():
        bad(msg, i)
    ctx.count('paths', n)
    if not n:
        raise Undecided('no path')


def setter(ctx, prog, f):
    W = f.blocks[0][0].where() or f.file
    ctx.ob('header::set', W)
    bad = uses(ctx, f, 'header-set', W, 'http::header::set')
    for p in Msg(prog, f).explore(0, None):
        if p.end != 'ret':
            continue
        s = [x for x in p.ev if x[0] == 'hset']
        if len(s) != 1 or s[0][2] != (('mem', 'a1', 0),) or s[0][3] != (('mem', 'a2', 0),):
            bad('the field of the given name does not get the given value')


class Cicmp(Induct):
    def begin(self):
        p = Path()
        p.env['G:i'] = num(0)
        for s in ('a0', 'a1'):
            p.env['#nn'] = p.env.get('#nn', frozenset()) | frozenset((('len', s),))
        return p

    def symbolic(self, r):
        return isinstance(r, tuple) and r[0] == 'chars'

    def loadbyte(self, p, r, off, sz, i):
        return var('chr', r[1], off.key())

    def cast(self, p, i, op, a):
        if isinstance(a, R) and op in ('sext', 'zext', 'trunc') and a.atom() and a.atom()[0] in ('chr', 'low'):
            return a
        return Induct.cast(self, p, i, op, a)

    def fork(self, p, i, n, a):
        d = i.dem or ''
        m = re.match(r'^std::__cxx11::basic_string<char.*?>>::(\w+|operator[^(]*)\(', d)
        if m and a[0] in (('P', 'a0', 0), ('P', 'a1', 0)):
            op, s = m.group(1), a[0][1]
            if op in ('length', 'size'):
                p.env[i.id] = var('len', s)
                return [p]
            if op in ('operator[]', 'at'):
                if not (self.implies(p, var('len', s) - a[1] - num(0))):
                    self.bad(p, 'a character past the end is used', i)
                c = a[1].const()
                p.env[i.id] = ('P', ('chars', s), int(c) if c is not None else a[1])
                return [p]
        if n in ('tolower', 'toupper', 'std::tolower', 'std::toupper'):
            at = a[0].atom()
            if not at or at[0] != 'chr':
                raise Undecided('tolower')
            p.env[i.id] = var('low', n[-7:], at)
            return [p]
        return None


def compare(ctx, prog, f):
    W = f.blocks[0][0].where() or f.file
    ctx.ob('cicmp', W)
    bad = uses(ctx, f, 'header-compare', W, 'http::cicmp')
    e = Cicmp(prog, f)
    n = 0
    back = []
    e.atback = lambda r, h: back.append(r)
    ps = [p for p in e.explore(0, e.begin()) if p.end == 'ret']
    A, B = var('len', 'a0'), var('len', 'a1')

    def pair(p):
        """indices compared on this pass and whether equal"""
        out = []
        for c, v in p.conds:
            if c[0] == 'cmp' and isinstance(c[2], R) and isinstance(c[3], R) and c[1] in ('eq', 'ne'):
                x, y = c[2].atom(), c[3].atom()
                if x and y and x[0] == 'low' and y[0] == 'low':
                    if x[1] != y[1]:
                        bad('characters are compared through different conversions')
                    if {x[2][1], y[2][1]} != {'a0', 'a1'}:
                        bad('characters of one string are compared with themselves')
                    elif x[2][2] != y[2][2]:
                        bad('characters at different places are compared')
                    out.append((x[2][2], (c[1] == 'eq') == v))
                elif x and y and x[0] == 'chr' and y[0] == 'chr':
                    bad('characters are compared with regard to case')
                elif x and y and {x[0], y[0]} == {'chr', 'low'}:
                    bad('only one of two characters is converted')
        return out
    for p in ps:
        n += 1
        t = e.truth(p, p.ret)
        if t is None:
            raise Undecided('result')
        cmp_ = pair(p)
        if t:
            if not e.equal(p, A, B):
                bad('strings of different lengths are equal')
        else:
            diff = any(not eq for k, eq in cmp_)
            ne = any(c[0] == 'cmp' and isinstance(c[2], R) and isinstance(c[3], R) and ((c[2] - c[3]).same(A - B) or (c[3] - c[2]).same(A - B)) and (c[1] if v else NEG[c[1]]) in ('ne', 'lt', 'gt') for c, v in p.conds)
            if not diff and not ne:
                bad('equal strings are different')
    for r in back:
        c = pair(r)
        if not any(eq for k, eq in c):
            bad('a pair of characters is skipped')
    if not back:
        raise Undecided('no loop')
    # every index: the loop variable runs from 0 by 1 to the length
    heads = list(f.loops())
    if len(heads) != 1:
        raise Undecided('loops')
    for p in ps:
        if e.truth(p, p.ret):
            last = p.env.get('#exit')
    for r in back:
        for k, eq in pair(r):
            o = R(dict(k[0]), dict(k[1]))
            st = [x for x in r.phis] if hasattr(r, 'phis') else []
            d = [r.phis[x] - r.env[x] for x in st if isinstance(r.phis[x], R) and isinstance(r.env.get(x), R) and r.env[x].same(o)]
            if d and not any(x.same(num(1)) for x in d):
                bad('characters are skipped')
    for p in ps:
        if e.truth(p, p.ret) and back:
            # left the loop with the index at the end
            ks = [R(dict(k[0]), dict(k[1])) for r in back for k, eq in pair(r)]
            if ks and not any(e.implies(p, k - A) for k in ks) and not any(e.implies(p, k - B) for k in ks):
                bad('the comparison ends before the last character')
            init = [k for k in ks if any(a[0] in ('T+', 'T') for a in k.atoms())]
            for k in init:
                z = k
                for a in k.atoms():
                    if a[0] in ('T+', 'T'):
                        z = e.subst(z, {a: num(0)})
                if not z.same(num(0)) and not z.same(A - num(1)) and not z.same(B - num(1)):
                    bad('the comparison does not begin at the first character')
    for i, msg in dict((str(x[1]), x) for x in e.problems).values():
        bad(msg, i)
    ctx.count('paths', n)


def receiving(ctx, prog, f, cls):
    short = cls.split('::')[-1]
    W = f.blocks[0][0].where() or f.file
    ctx.ob('%s from a socket' % short, W)
    bad = uses(ctx, f, 'receive-' + short, W, 'http::%s' % short)
    e = Msg(prog, f)
    n = 0
    TE = (('mem', ('field', (('lit', 'Transfer-Encoding'),)), 0),)
    CL = (('mem', ('field', (('lit', 'Content-Length'),)), 0),)
    chunked = (('lit', 'chunked'),)
    for p in e.explore(0, None):
        if p.end not in ('ret', 'throw'):
            continue
        n += 1
        scan = [x for x in p.ev if x[0] == 'scan']
        if p.end == 'throw':
            continue
        for x in scan:
            if x[2] != (('lit', 'HTTP/%d.%d'),):
                raise Undecided('scan')
            if not e.equal(p, x[3], num(2)):
                bad('a start line without a version is accepted', x[1])
        if not scan:
            raise Undecided('version')
        hd = [k for k, x in enumerate(p.ev) if x[0] == 'header' and any(isinstance(y, tuple) and y[:2] == ('P', 'a1') for y in x[2][1:])]
        gl = [k for k, x in enumerate(p.ev) if x[0] == 'getline']
        if len(hd) != 1 or not gl or gl[-1] > hd[0]:
            bad('the header is not read once, after the start line')
        ci = [x for x in p.ev if x[0] == 'ci' and {x[2], x[3]} == {TE, chunked}]
        same = [x for x in p.ev if x[0] == 'same' and CL in (x[2], x[3]) and () in (x[2], x[3])]
        clen = e.strlen(p, CL)
        st = [x for x in p.ev if x[0] == 'stream']
        own = [x for x in p.ev if x[0] == 'own']
        if len(own) != 1:
            raise Undecided('streams')
        own = own[0]
        st = [x for x in st if x[2] == own[2]]
        st = st[-1] if st else own
        ch = ci[-1][4] if ci else None
        has = (not same[-1][4]) if same else (True if e.implies(p, clen - num(1)) else (False if e.implies(p, -clen) else None))
        kind = own[2]
        if kind == 'basic_httpbody_chunked_stream':
            if not ch:
                bad('a body that is not chunked is read as chunks', st[1])
        elif kind == 'basic_httpbody_stream':
            if ch or ch is None:
                bad('a chunked body is read by its Content-Length', st[1])
            if not has:
                bad('the length of a body is used although there is none', st[1])
            if st is own:
                raise Undecided('length')
            a = st[3][2] if len(st[3]) > 2 else None
            if isinstance(a, R) and not a.same(var('num', CL)):
                bad('the length of the body is not its Content-Length', st[1])
        elif kind == 'basic_socketstream':
            if ch or ch is None:
                bad('a chunked body is read unframed', st[1])
            elif has or has is None:
                bad('a body with a Content-Length is read unframed', st[1])
        else:
            raise Undecided('stream')
    ctx.count('paths', n)
    if not n:
        raise Undecided('no path')


def check(ctx):
    prog = ctx.prog('http')
    jobs = []
    for f in prog.by_dem.values():
        d = f.dem
        for c in ('request', 'response'):
            if d.startswith(NS + c + '::send('):
                jobs.append((sending, (f, NS + c)))
            if d.startswith(NS + c + '::' + c + '(pfi::lang::shared_ptr<'):
                jobs.append((receiving, (f, NS + c)))
        if d.startswith(NS + 'header::send('):
            jobs.append((fields, (f,)))
        m = re.match(re.escape(NS) + r'header::(has_key|erase|operator\[\])\(', d)
        if m:
            jobs.append((lookup, (f, m.group(1))))
        if d.startswith(NS + 'header::set('):
            jobs.append((setter, (f,)))
        if d.startswith(NS + 'cicmp('):
            jobs.append((compare, (f,)))
    for fn, a in jobs:
        try:
            fn(ctx, prog, *a)
        except Undecided as x:
            ctx.count('undecided')
            ctx.samples.append('undecided %s: %s' % (a[0].short, x))
        except (TypeError, KeyError, IndexError, AttributeError) as x:
            ctx.count('undecided')
            ctx.samples.append('undecided %s: %s %s' % (a[0].short, type(x).__name__, x))

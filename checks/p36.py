"""Socket streams: every byte passes the stream buffer once and in order, and failures are reported."""
import os
from formula import *
from p20 import Typed, NullUse, opaque

RULE = ('every path of the stream buffer operations (virtual calls resolved from its vtable) is evaluated for each state it can be in: without a socket holder, with a holder whose '
        'socket is null, with a socket; and with or without a byte read ahead. The calls made on the socket, their arguments, the returned value and the read-ahead byte left behind '
        'are compared with the interface of basic_streambuf; a null pointer that is dereferenced is a violation')
ASSUME = ['stream_socket::write, getc and flush behave as P27 states; std::basic_iostream calls the buffer as the standard requires (overflow is not called with end of file)']

SK = ('P', ('sk',), 0)
BUF = 'pfi::network::basic_socketstreambuf<char, std::char_traits<char> >'


class SB(Typed):
    """mode: 'nohold', 'nosock', 'sock'; ahead: is a byte read ahead?"""

    def __init__(self, prog, f, mode, ahead, lay, base='a0', depth=0):
        self.hold = ('*', base, lay['sock'])
        Typed.__init__(self, prog, f, {self.hold: None if mode == 'nohold' else 'holder'})
        self.mode, self.ahead, self.lay, self.base, self.depth = mode, ahead, lay, base, depth

    def nonnull(self, p, v):
        if v == SK:
            return True
        return Typed.nonnull(self, p, v)

    def initial(self, p, root, off, sz, ty):
        if root == self.base and off == self.lay['buf']:
            return var('ahead') if self.ahead else num(-1)
        return Typed.initial(self, p, root, off, sz, ty)

    def truth(self, p, c):
        if isinstance(c, tuple) and c[0] == 'cmp' and isinstance(c[2], R) and isinstance(c[3], R):
            for x, y, op in ((c[2], c[3], c[1]), (c[3], c[2], SWAP[c[1]])):
                if x.atom() == ('ahead',) and y.const() is not None:
                    k = y.const()
                    # the byte read ahead is 0..255
                    if k < 0:
                        return {'eq': False, 'ne': True, 'lt': False, 'le': False, 'gt': True, 'ge': True}[op]
                    if k == 0 and op in ('ge', 'lt'):
                        return op == 'ge'
        return Typed.truth(self, p, c)

    def virtual(self, p, i, a):
        cv = self.val(p, i.d['cv'])
        t = cv[1] if isinstance(cv, tuple) and cv[0] == 'P' else None
        if isinstance(t, tuple) and t[0] == '*' and isinstance(t[1], tuple) and t[1] == ('*', self.hold, 0):
            # the holder's get()
            if self.mode == 'nohold':
                raise NullUse(i, 'calls a function of')
            p.env[i.id] = SK if self.mode == 'sock' else ('P', 'null', 0)
            return True
        if a and isinstance(a[0], tuple) and a[0][:2] == ('P', 'null'):
            raise NullUse(i, 'calls a function of')
        raise Undecided('virtual call')

    def inst(self, p, i):
        if i.op == 'call' and not i.callee and 'cv' in i.d and p.end is None:
            cv = self.val(p, i.d['cv'])
            t = cv[1] if isinstance(cv, tuple) and cv[0] == 'P' else None
            if isinstance(t, tuple) and t[0] == '*' and t[1] == ('*', self.base, 0):
                agg = None
                for gv in self.prog.globals.values():
                    if gv.get('agg') and gv.get('dem', '').replace(' >', '>') == ('vtable for ' + BUF).replace(' >', '>'):
                        agg = gv['agg'][0]
                e = agg[2 + t[2] // 8] if agg and 2 + t[2] // 8 < len(agg) else ''
                g = self.prog.by_name.get(e[2:]) if isinstance(e, str) else None
                if g is None or self.depth > 2 or any(x.op == 'alloca' for x in g.insts()):
                    raise Undecided('virtual call')
                n = SB(self.prog, g, self.mode, self.ahead, self.lay, self.base, self.depth + 1)
                q = p.copy()
                q.env = {}
                for k, o in enumerate(i.ops):
                    if k:
                        q.env['a%d' % k] = self.val(p, o)
                out = []
                for r in n.run(0, q):
                    self.defs.update(n.defs)
                    s = p.copy()
                    s.log, s.conds, s.ev = r.log, r.conds, r.ev
                    if r.end == 'ret':
                        s.env[i.id] = r.ret
                    else:
                        s.end = r.end
                    out.append(s)
                return out
        return Typed.inst(self, p, i)

    def call(self, p, i, n, a):
        d = i.dem or ''
        if d.startswith('pfi::network::stream_socket::'):
            if a and isinstance(a[0], tuple) and a[0][:2] == ('P', 'null'):
                raise NullUse(i, 'calls %s on' % d.split('(')[0].split('::')[-1])
            p.ev.append(('sock', i, d.split('(')[0].split('::')[-1], a))
            if i.ty not in (None, 'void'):
                p.env[i.id] = var('res', i.id) if i.ty != 'ptr' else ('P', ('res', i.id), 0)
            return True
        if re.search(r'char_traits<char>::(eof|not_eof|to_int_type|to_char_type|eq_int_type)\(', d):
            k = re.search(r'::(\w+)\(', d[d.index('char_traits'):]).group(1)
            if k == 'eof':
                p.env[i.id] = num(-1)
                return True
            x = [self.load(p, y[1], y[2], 4 if k != 'to_int_type' else 1, 'i32' if k != 'to_int_type' else 'i8') if isinstance(y, tuple) and y[0] == 'P' else y for y in a]
            if k == 'eq_int_type':
                p.env[i.id] = ('cmp', 'eq', x[0], x[1])
                return True
            if k == 'to_char_type':
                p.env[i.id] = self.tag('trunc8', x[0])
                return True
            raise Undecided(k)
        return Typed.call(self, p, i, n, a)


def check(ctx):
    prog = ctx.prog('sstream')
    t = prog.types.get(BUF)
    if not t:
        raise AnchorLost('basic_socketstreambuf<char>')
    lay = {}
    for m in t['m']:
        if m['t'] == 'int' and 'buf' not in lay:
            lay['buf'] = m['off']
        if 'shared_ptr<' in m['t'] and 'holder' in m['t']:
            lay['sock'] = m['off']
    if set(lay) != set(('buf', 'sock')) or len([m for m in t['m'] if m['t'] == 'int']) != 1:
        raise AnchorLost('members of basic_socketstreambuf')

    def fn(n):
        fs = [f for f in prog.funcs if f.dem.startswith('driver_sstream::' + n + '(')]
        if not fs:
            raise AnchorLost(n)
        return fs[0]

    def bufat(T, p):
        return T.load(p, 'a0', lay['buf'], 4, 'i32')

    def socks(p):
        return [e for e in p.ev if e[0] == 'sock']

    def is_res(x, e):
        return isinstance(x, R) and x.atom() == ('res', e[1].id)

    def sign(T, p, e):
        """what the path knows about the result of a call: lo, hi"""
        lo, hi = None, None
        for q, v in p.conds:
            if q[0] != 'cmp' or not (isinstance(q[2], R) and isinstance(q[3], R)):
                raise Undecided('condition')
            op, x, y = (q[1] if v else NEG[q[1]]), q[2], q[3]
            if is_res(y, e):
                op, x, y = SWAP[op], y, x
            if not is_res(x, e):
                raise Undecided('condition')
            k = y.const()
            if k is None:
                raise Undecided('condition')
            if op in ('ge', 'gt', 'eq'):
                lo = max(k + (op == 'gt'), lo) if lo is not None else k + (op == 'gt')
            if op in ('le', 'lt', 'eq'):
                hi = min(k - (op == 'lt'), hi) if hi is not None else k - (op == 'lt')
            if op == 'ne':
                if lo is not None and k == lo:
                    lo += 1
                elif hi is not None and k == hi:
                    hi -= 1
                else:
                    raise Undecided('condition')
        return lo, hi

    def run(name, mode, ahead, judge, what):
        f = fn(name)
        label = '%s %s%s' % (what, {'nohold': 'without a socket', 'nosock': 'with a null socket', 'sock': 'with a socket'}[mode],
                             '' if ahead is None else (', a byte read ahead' if ahead else ', no byte read ahead'))
        ctx.ob('stream', label)
        ctx.count('cases')
        T = SB(prog, f, mode, bool(ahead), lay)
        try:
            ps = T.run()
            if not ps:
                raise Undecided('no path')
            ctx.count('paths', len(ps))
            for p in ps:
                if isinstance(p.end, tuple):
                    raise Undecided('throws')
                m = judge(T, p)
                if m:
                    ctx.bad('stream', f, T.at.where() if T.at is not None else name, '%s: %s' % (label, m))
                    return
        except NullUse as e:
            ctx.bad('stream', f, e.i.where(), '%s: %s a null pointer' % (label, e.what))
        except Undecided as e:
            ctx.count('undecided')
            ctx.samples.append('undecided %s: %s' % (label, e))
            if os.environ.get('UND'):
                print('undecided %s: %s' % (label, e))

    def const(v):
        def j(T, p):
            if socks(p):
                return 'uses the socket'
            k = p.ret.const() if isinstance(p.ret, R) else None
            if isinstance(p.ret, tuple) and p.ret[0] == 'P':
                return None if v == 'null' and p.ret[1] == 'null' else 'returns a pointer'
            if k is None:
                raise Undecided('returned value')
            return None if k == v else 'returns %s, not %s' % (k, v)
        return j

    for mode in ('nohold', 'nosock'):
        run('sb_xsputn', mode, None, const(0), 'xsputn')
        run('sb_overflow', mode, None, const(-1), 'overflow')
        run('sb_sync', mode, None, const(-1), 'sync')
        run('sb_underflow', mode, False, const(-1), 'underflow')
        run('sb_uflow', mode, False, const(-1), 'uflow')
        run('sb_connected', mode, None, const(0), 'is_connected')
        run('sb_socket', mode, None, const('null'), 'socket')

    # with a socket
    def one(p, op):
        es = socks(p)
        if len(es) != 1 or es[0][2] != op:
            return None, 'calls %s on the socket, not %s once' % (', '.join(e[2] for e in es) or 'nothing', op)
        if es[0][3][0] != SK:
            raise Undecided('socket')
        return es[0], None

    def xsputn(T, p):
        e, m = one(p, 'write')
        if m:
            return m
        a = e[3]
        if a[1] != ('P', 'a1', 0):
            return 'writes from other memory than given'
        n = a[2]
        while isinstance(n, R) and n.atom() in T.defs and T.defs[n.atom()][0] == 'trunc':
            n = T.defs[n.atom()][1]
        if not (isinstance(n, R) and n.atom() == ('arg', 'a2')):
            if isinstance(n, R):
                return 'writes %s bytes, not the number given' % n
            raise Undecided('size')
        lo, hi = sign(T, p, e)
        if lo is not None and hi is not None and lo > hi:
            return None
        if is_res(p.ret, e):
            if lo is None or lo < 0:
                return 'returns a negative count'
            return None
        k = p.ret.const() if isinstance(p.ret, R) else None
        if k is None:
            if isinstance(p.ret, R) and p.ret.atom() == ('arg', 'a2'):
                return 'reports all bytes as written without looking at how many were'
            raise Undecided('returned value')
        if k == 0 and hi is not None and hi <= 0:
            return None
        if k == lo == hi:
            return None
        return 'returns %s where write returned from %s to %s' % (k, lo, hi)

    def overflow(T, p):
        e, m = one(p, 'write')
        if m:
            return m
        a = e[3]
        if not isinstance(a[2], R) or a[2].const() is None:
            raise Undecided('size')
        if a[2].const() != 1:
            return 'writes %s bytes' % a[2].const()
        if not (isinstance(a[1], tuple) and a[1][0] == 'P'):
            raise Undecided('source')
        v = T.load(p, a[1][1], a[1][2], 1, 'i8')
        while isinstance(v, R) and v.atom() in T.defs and T.defs[v.atom()][0] in ('trunc', 'trunc8'):
            v = T.defs[v.atom()][1]
        if not (isinstance(v, R) and v.atom() == ('arg', 'a1')):
            raise Undecided('byte written')
        # conditions on the argument itself (end of file) are no concern here
        q = p.copy()
        q.conds = [c for c in p.conds if not (c[0][0] == 'cmp' and any(isinstance(x, R) and x.atom() == ('arg', 'a1') for x in c[0][2:]))]
        lo, hi = sign(T, q, e)
        if lo is not None and hi is not None and lo > hi:
            return None
        k = p.ret.const() if isinstance(p.ret, R) else None
        if k is None:
            if isinstance(p.ret, R) and p.ret.atom() in (('arg', 'a1'),):
                k = 0
            elif is_res(p.ret, e):
                if lo is not None and lo >= 1:
                    return None
                return 'returns the result of write as if it were the byte'
            else:
                raise Undecided('returned value')
        if k == -1:
            return None if hi is not None and hi <= 0 else 'reports failure where write returned from %s to %s' % (lo, hi)
        return None if lo is not None and lo >= 1 else 'reports success where write returned from %s to %s' % (lo, hi)

    def sync(T, p):
        e, m = one(p, 'flush')
        if m:
            return m
        lo, hi = sign(T, p, e)
        k = p.ret.const() if isinstance(p.ret, R) else None
        if k is None:
            raise Undecided('returned value')
        # flush returns a negative number if everything was sent
        if k == 0:
            return None if hi is not None and hi < 0 else 'reports success where not everything was sent'
        return None if lo is not None and lo >= 0 else 'reports failure where everything was sent'

    def reading(consume):
        def j(T, p):
            es = socks(p)
            if T.ahead:
                if es:
                    return 'reads from the socket although a byte is read ahead'
                if not (isinstance(p.ret, R) and p.ret.atom() == ('ahead',)):
                    return 'does not return the byte read ahead'
            else:
                e, m = one(p, 'getc')
                if m:
                    return m
                r = p.ret
                if isinstance(r, R) and r.const() is not None:
                    lo, hi = sign(T, p, e)
                    if r.const() == -1 and hi is not None and hi <= -1:
                        pass
                    else:
                        return 'returns %s, not the byte read' % r.const()
                elif not is_res(r, e):
                    return 'does not return the byte read'
            b = bufat(T, p)
            if consume:
                if isinstance(b, R) and b.const() == -1:
                    return None
                return 'leaves the byte behind: it would be delivered twice'
            if T.ahead:
                return None if isinstance(b, R) and b.atom() == ('ahead',) else 'forgets the byte read ahead'
            if is_res(b, es[0]) or (isinstance(b, R) and b.const() == -1 and isinstance(p.ret, R) and p.ret.const() == -1):
                return None
            return 'forgets the byte read: it would be lost'
        return j

    run('sb_xsputn', 'sock', None, xsputn, 'xsputn')
    run('sb_overflow', 'sock', None, overflow, 'overflow')
    run('sb_sync', 'sock', None, sync, 'sync')
    for ahead in (False, True):
        run('sb_underflow', 'sock', ahead, reading(False), 'underflow')
        run('sb_uflow', 'sock', ahead, reading(True), 'uflow')

    def connected(T, p):
        e, m = one(p, 'is_connected')
        if m:
            return m
        r = p.ret
        if is_res(r, e):
            return None
        raise Undecided('returned value')
    run('sb_connected', 'sock', None, connected, 'is_connected')
    run('sb_socket', 'sock', None, lambda T, p: None if p.ret == SK else 'is another pointer', 'socket')

    # a new socket: the byte read ahead of the old one is forgotten, the state of the stream follows
    tt = prog.types.get(BUF.replace('socketstreambuf', 'socketstream')) or {}
    off = [m['off'] for m in tt.get('m', []) if 'socketstreambuf' in m['t']]
    if len(off) != 1:
        raise AnchorLost('basic_socketstream')

    def newsock(conn):
        def j(T, p):
            b = T.load(p, 'a0', off[0] + lay['buf'], 4, 'i32')
            if not (isinstance(b, R) and b.const() == -1):
                return 'keeps the byte read ahead from the old socket'
            cs = [e for e in p.ev if e[0] == 'call']
            setter = [e for e in cs if re.search(r'basic_ios<char.*::(clear|setstate)\(', e[1].dem or '')]
            if conn:
                e = [x for x in socks(p) if x[2] == 'connect']
                if len(e) != 1:
                    raise Undecided('connect')
                ok = T.truth(p, p.env[e[0][1].id])
                bits = [x[2][1].const() if len(x[2]) > 1 and isinstance(x[2][1], R) else None for x in setter]
                if ok is None:
                    if setter and None not in bits:
                        return 'the state of the stream does not depend on the result of connect'
                    raise Undecided('result of connect')
                if not ok and not any((k or 0) for k in bits):
                    if None in bits:
                        raise Undecided('state')
                    return 'a failed connect is not reported in the state of the stream'
                if ok and not setter:
                    raise Undecided('state')
                if ok and any((k or 0) for k in bits):
                    return 'a successful connect sets a failure bit'
            else:
                if any('::setstate(' in x[1].dem for x in setter):
                    return 'sets a failure bit'
            return None
        return j

    class NS(SB):
        # the virtual base of the stream, reached through an offset of the vtable, lies apart from the stream buffer
        def inst(self, p, i):
            if i.op == 'getelementptr' and p.end is None and i.d.get('var'):
                r = self.val(p, i.ops[0])
                if isinstance(r, tuple) and r[:3] == ('P', 'a0', 0) and all(
                        not (isinstance(k, R) and k.const() is not None) for k in (self.val(p, v) for v, sc in i.d['var'])):
                    p.env[i.id] = ('P', ('ios',), 0)
                    return [p]
            return SB.inst(self, p, i)

    for n, conn in (('ss_connect', True), ('ss_setsock', False)):
        f = fn(n)
        label = n[3:] + ' on a socketstream'
        ctx.ob('stream', label)
        ctx.count('cases')
        S = NS(prog, f, 'sock', True, {'buf': off[0] + lay['buf'], 'sock': off[0] + lay['sock']})
        try:
            ps = [p for p in S.run() if p.end == 'ret']
            if not ps:
                raise Undecided('no path')
            ctx.count('paths', len(ps))
            for p in ps:
                m = newsock(conn)(S, p)
                if m:
                    ctx.bad('stream', f, f.d.get('file', n), '%s: %s' % (label, m))
                    break
        except NullUse as e:
            ctx.bad('stream', f, e.i.where(), '%s: %s a null pointer' % (label, e.what))
        except Undecided as e:
            ctx.count('undecided')
            ctx.samples.append('undecided %s: %s' % (label, e))
            if os.environ.get('UND'):
                print('undecided %s: %s' % (label, e))

"""Sockets: buffered input and output keep every byte, once and in order."""
from induct import *

RULE = '''Value numbering of every operation of stream_socket with ghost positions (bytes delivered, read from the buffer, appended, sent), loops in closed form over their induction variables:
every copy, receive and send starts exactly where the previous one ended and covers no more than what is left, in the buffers as in the caller's memory; memory is received into only when nothing buffered is pending;
input received into the buffer is what is handed out next; the caller's bytes are sent directly only after everything buffered; buffer indices stay below its size; at every return the indices describe
what is left and the result is the number of bytes delivered or taken, short only after a failed transfer. recv, send, accept and connect that are interrupted are repeated with the same arguments; a transfer that fails closes the
socket; a new descriptor starts with empty buffers. getline stores every byte it takes, once, up to the line's end, which it drops with a carriage return before it; puts hands the whole string to write.'''
ASSUME = ['sizes passed in are not negative and fit an int', 'the kernel transfers no more than the size it is given']
CLS = 'pfi::network::stream_socket'


class Sock(Induct):
    def __init__(self, prog, f, lay, out):
        Induct.__init__(self, prog, f)
        self.lay, self.out = lay, out
        self.calls = 0

    def field(self, p, n, sz=4):
        return Formula.load(self, p, 'a0', self.lay[n], sz, 'i%d' % (8 * sz))

    def symbolic(self, r):
        return r == 'a1' or (isinstance(r, tuple) and r[0] == 'buf')

    RB = property(lambda s: ('buf', s.lay['rdbuf']))
    WB = property(lambda s: ('buf', s.lay['wrbuf']))

    def need(self, p, c, msg, i):
        if not c:
            self.bad(p, msg, i)

    def begin(self):
        p = Path()
        F = lambda n: var('ld', 'a0', self.lay[n])
        P, E, W = F('rdbuf_p'), F('rdbuf_end'), F('wrbuf_size')
        p.env['#facts'] = (P, E - P, num(self.lay['nrd']) - E, W, num(self.lay['nwr'] - 1) - W, var('arg', 'a2'))
        p.env['#nn'] = frozenset((P.atom(), W.atom(), ('arg', 'a2')))
        p.env['G:D'] = num(0)
        p.env['G:G'], p.env['G:E'] = P, E
        p.env['G:W'], p.env['G:S'], p.env['G:C'] = W, num(0), num(0)
        p.env['#fail'] = None
        return p

    # --- transfers
    def deliver(self, p, off, root, src, n, i):
        if root != self.RB:
            raise Undecided('copy')
        self.need(p, self.equal(p, off, p.env['G:D']), 'bytes are not stored right after those already delivered', i)
        self.need(p, self.equal(p, src, p.env['G:G']), 'the bytes copied are not the next ones of the buffer', i)
        self.need(p, self.implies(p, p.env['G:E'] - p.env['G:G'] - n), 'more bytes may be copied than the buffer holds', i)
        self.need(p, self.implies(p, var('arg', 'a2') - p.env['G:D'] - n), 'more bytes may be copied than were asked for', i)
        p.env['G:D'] = p.env['G:D'] + n
        p.env['G:G'] = p.env['G:G'] + n

    def append(self, p, off, root, src, n, i):
        if root != 'a1':
            raise Undecided('copy')
        self.restart(p, off)
        self.need(p, self.equal(p, off, p.env['G:W']), 'bytes are not appended right after those already in the buffer', i)
        self.need(p, self.equal(p, src, p.env['G:C']), 'the bytes appended are not the next ones of the caller', i)
        self.need(p, self.implies(p, num(self.lay['nwr']) - off - n), 'bytes may be stored past the end of the buffer', i)
        p.env['G:W'] = p.env['G:W'] + n
        p.env['G:C'] = p.env['G:C'] + n

    def loop(self, q, h, depth):
        self.restart(q, self.field(q, 'wrbuf_size'))
        return Induct.loop(self, q, h, depth)

    def restart(self, p, off):
        """everything buffered has been sent and the buffer is used from its beginning again"""
        if not self.equal(p, off, p.env['G:W']) and self.equal(p, p.env['G:S'], p.env['G:W']) and self.equal(p, off, num(0)):
            p.env['G:W'], p.env['G:S'] = num(0), num(0)

    def put(self, p, root, off, sz, x, i):
        if sz != 1:
            raise Undecided('computed store')
        a = x.atom() if isinstance(x, R) else None
        if not a or a[0] != 'byte':
            raise Undecided('computed store')
        src = R(dict(a[2][0]), dict(a[2][1]))
        if root == 'a1':
            self.deliver(p, off, a[1], src, num(1), i)
        elif root == self.WB:
            self.append(p, off, a[1], src, num(1), i)
        else:
            raise Undecided('computed store')

    def copyto(self, p, dst, src, n, i):
        if dst[0] == 'a1':
            self.deliver(p, offr(dst[1]), src[0], offr(src[1]), n, i)
        elif dst[0] == self.WB:
            self.append(p, offr(dst[1]), src[0], offr(src[1]), n, i)
        else:
            raise Undecided('copy')

    def fork(self, p, i, n, a):
        d = i.dem or ''
        if re.search(r'vector<unsigned char.*>::(operator\[\]|at)\(', d):
            off = self.ptr(a[0])
            if off[0] != 'a0' or not isinstance(a[1], R):
                raise Undecided('vector')
            c = a[1].const()
            p.env[i.id] = ('P', ('buf', off[1]), int(c) if c is not None else a[1])
            return [p]
        if re.search(r'vector<unsigned char.*>::(data|front)\(', d):
            p.env[i.id] = ('P', ('buf', self.ptr(a[0])[1]), 0)
            return [p]
        if re.search(r'stream_socket::recv\(', d) or re.search(r'stream_socket::send\(', d):
            self.calls += 1
            out = []
            k = p.env.get('#k', 0) + 1
            rv = var('r', i.id, k)
            tmpl = p
            for good in (True, False):
                q = tmpl.copy()
                q.env['#k'] = k
                q.env[i.id] = rv
                q.conds.append((('cmp', 'gt', rv, num(0)), good))
                q.env['#facts'] = q.env['#facts'] + (a[2] - rv,)
                self.transfer(q, i, a, rv, good, 'recv(' in d)
                out.append(q)
            return out
        if re.search(r'stream_socket::close\(', d):
            p.env[i.id] = var('closed', i.id)
            p.ev.append(('close', i))
            return [p]
        return None

    def transfer(self, q, i, a, r, good, rd):
        root, off = self.ptr(a[1])
        off = offr(off)
        n = a[2]
        E = q.env
        if rd:
            self.need(q, self.equal(q, E['G:G'], E['G:E']), 'input is received while earlier input is still buffered', i)
            if root == 'a1':
                self.need(q, self.equal(q, off, E['G:D']), 'input is not received right after the bytes already delivered', i)
                self.need(q, self.implies(q, var('arg', 'a2') - E['G:D'] - n), 'more bytes may be received than were asked for', i)
                if good:
                    E['G:D'] = E['G:D'] + r
            elif root == self.RB:
                self.need(q, self.implies(q, num(self.lay['nrd']) - off - n), 'more bytes may be received than the buffer holds', i)
                E['G:G'], E['G:E'] = off, off + (r if good else num(0))
                E['#refilled'] = good
            else:
                raise Undecided('receive')
        else:
            if root == self.WB:
                self.need(q, self.equal(q, off, E['G:S']), 'the bytes sent are not the next ones of the buffer', i)
                self.need(q, self.implies(q, E['G:W'] - E['G:S'] - n), 'more bytes may be sent than the buffer holds', i)
                if good:
                    E['G:S'] = E['G:S'] + r
                else:
                    E['#fail'] = 'buffer'
            elif root == 'a1':
                self.need(q, self.equal(q, E['G:S'], E['G:W']), 'the caller\'s bytes are sent before those buffered earlier', i)
                self.need(q, self.equal(q, off, E['G:C']), 'the bytes sent are not the next ones of the caller', i)
                self.need(q, self.implies(q, var('arg', 'a2') - E['G:C'] - n), 'more bytes may be sent than were given', i)
                if good:
                    E['G:C'] = E['G:C'] + r
                else:
                    E['#fail'] = 'direct'
            else:
                raise Undecided('send')
        if rd and not good:
            E['#fail'] = 'recv'


def finish(e, f, p, name, lay, i):
    """the rules at a return"""
    E = p.env
    need = lambda c, m: e.need(p, c, m, i)
    A2 = var('arg', 'a2')
    P, En, W = e.field(p, 'rdbuf_p'), e.field(p, 'rdbuf_end'), e.field(p, 'wrbuf_size')
    # input side
    if e.equal(p, E['G:G'], E['G:E']):
        need(e.equal(p, P, En), 'the buffer counts as holding input it does not hold')
    elif name == 'getc' and isinstance(p.ret, R) and p.ret.atom() and p.ret.atom()[0] in ('byte', 'sext8'):
        pass
    else:
        need(P.same(E['G:G']) and En.same(E['G:E']), 'the buffer indices do not describe the input that is left')
    # output side
    fail = E['#fail']
    if fail not in ('buffer', 'direct'):
        if e.equal(p, E['G:S'], E['G:W']):
            need(e.equal(p, W, num(0)), 'bytes that were sent stay in the buffer')
        else:
            need(e.equal(p, E['G:S'], num(0)) and e.equal(p, W, E['G:W']), 'the size of the buffer is not the number of bytes appended and not yet sent')
        if name == 'write':
            need(e.implies(p, num(lay['nwr'] - 1) - W), 'the buffer is left full')
    r = p.ret
    if name == 'read':
        need(isinstance(r, R) and e.equal(p, r, E['G:D']), 'the result is not the number of bytes delivered')
        if fail != 'recv':
            need(e.implies(p, E['G:D'] - A2), 'fewer bytes than asked for are delivered although no receive failed')
    elif name == 'getc':
        a = r.atom() if isinstance(r, R) else None
        if isinstance(r, R) and r.const() is not None:
            need(r.const() == -1 and fail == 'recv', 'a constant is returned although input is available')
        elif a and a[0] == 'sext8':
            need(False, 'bytes above 127 are returned as negative numbers')
        elif a and a[0] == 'byte':
            off = R(dict(a[2][0]), dict(a[2][1]))
            need(a[1] == e.RB and e.equal(p, off, E['G:G']), 'the byte returned is not the next one of the input')
            need(e.implies(p, E['G:E'] - E['G:G'] - num(1)), 'a byte is returned although the buffer may be empty')
            need(e.equal(p, P, E['G:G'] + num(1)) and e.equal(p, En, E['G:E']), 'the buffer indices do not describe the input that is left')
        else:
            raise Undecided('result of getc')
    elif name == 'flush':
        if fail:
            need(e.equal(p, W, num(0)), 'bytes stay in the buffer after a flush that failed')
            need(isinstance(r, R) and e.equal(p, r, E['G:S']), 'the result after a failed send is not the number of bytes sent')
        else:
            need(e.equal(p, E['G:S'], E['G:W']), 'success is reported although not everything was sent')
            need(isinstance(r, R) and e.implies(p, num(-1) - r), 'failure is reported although everything was sent')
    elif name == 'write':
        if fail == 'direct':
            need(isinstance(r, R) and e.equal(p, r, E['G:C']), 'the result after a failed send is not the number of bytes taken')
        elif fail == 'buffer':
            w0 = var('ld', 'a0', lay['wrbuf_size'])
            d = E['G:S'] - w0
            ok = isinstance(r, R) and (e.equal(p, r, d) and e.implies(p, d) or e.equal(p, r, num(0)) and e.implies(p, -d))
            need(ok, 'the result after a failed send is not the number of the caller\'s bytes that were sent')
        else:
            need(isinstance(r, R) and e.equal(p, r, A2), 'the result is not the number of bytes given although no send failed')
            need(e.implies(p, E['G:C'] - A2), 'not all of the caller\'s bytes are taken although no send failed')


def layout(prog):
    t = prog.types.get(CLS)
    if not t:
        return None
    lay = dict((m['n'], m['off']) for m in t['m'])
    need = ('connected', 'sock', 'rdbuf', 'rdbuf_p', 'rdbuf_end', 'wrbuf', 'wrbuf_size')
    if any(n not in lay for n in need):
        return None
    for f in prog.funcs:
        if re.search(r'stream_socket::stream_socket\(\)', f.dem):
            for i in f.insts():
                if i.iscall and re.search(r'vector<unsigned char.*>::vector\(unsigned long', i.dem or ''):
                    d = f.defs.get(i.ops[0])
                    if d is not None and d.op == 'getelementptr' and str(i.ops[1]).startswith('c:'):
                        if d.d.get('off') == lay['rdbuf']:
                            lay['nrd'] = int(i.ops[1][2:])
                        if d.d.get('off') == lay['wrbuf']:
                            lay['nwr'] = int(i.ops[1][2:])
    return lay if 'nrd' in lay and 'nwr' in lay else None


def buffered(ctx, prog, lay):
    for f in prog.funcs:
        m = re.match(r'^pfi::network::stream_socket::(read|write|getc|flush|fill_buf)\(', f.dem)
        if not m:
            continue
        name = m.group(1)
        W = f.blocks[0][0].where() or f.file
        ctx.ob('stream_socket::' + name, W)
        e = Sock(prog, f, lay, None)
        try:
            ps = e.explore(0, e.begin())
            n = 0
            for p in ps:
                if p.end == 'ret':
                    n += 1
                    finish(e, f, p, name, lay, f.blocks[0][0])
            ctx.count('paths', n)
            if not n:
                raise Undecided('no return')
            for i, msg in dict(((str(x[1])), x) for x in e.problems).values():
                ctx.bad('bytes-' + name, f, (i.where() or W) if i is not None else W, 'stream_socket::%s: %s' % (name, msg))
        except Undecided as x:
            ctx.count('undecided')
            ctx.samples.append('undecided stream_socket::%s: %s' % (name, x))


# ---------------------------------------------------------------- system calls

class Sys(Formula):
    SLOW = ('recv', 'send', 'accept', 'connect', 'read', 'write', 'recvfrom', 'sendto')

    def load(self, p, root, off, sz, ty, upto=None):
        if root == 'errno':
            return var('errno', p.env.get('#last', 0))
        return Formula.load(self, p, root, off, sz, ty, upto)

    def cast(self, p, i, op, a):
        if isinstance(a, R) and (op in ('trunc', 'sext', 'zext')) and i.ty in ('i32', 'i64', 'i1'):
            return a
        return Formula.cast(self, p, i, op, a)

    def val(self, p, v):
        try:
            return Formula.val(self, p, v)
        except Undecided:
            return ('?', v)

    def inst(self, p, i):
        try:
            return Formula.inst(self, p, i)
        except Undecided:
            if i.op in ('br', 'ret', 'switch'):
                raise
            p.env[i.id] = ('P', ('?', i.id, len(p.ev)), 0) if i.ty == 'ptr' else var('?', i.id, len(p.ev))
            return None

    def docall(self, p, i):
        n = i.callee or ''
        if n == '__errno_location':
            p.env[i.id] = ('P', 'errno', 0)
            return
        if n in self.SLOW + ('close', 'socket', 'setsockopt', 'bind', 'listen', 'getsockname'):
            k = len(p.ev)
            p.env['#last'] = k
            a = [self.val(p, o) for o in i.ops]
            p.ev.append((n, i, a, k))
            p.env[i.id] = var('res', n, k)
            return
        if n.startswith('llvm.'):
            try:
                return Formula.docall(self, p, i)
            except Undecided:
                return
        a = []
        for o in i.ops:
            a.append(self.val(p, o))
        p.ev.append(('call', i, a, i.dem or n))
        if i.ty == 'ptr':
            p.env[i.id] = ('P', ('?', i.id, len(p.ev)), 0)
        elif i.ty != 'void':
            p.env[i.id] = var('?', i.id, len(p.ev))


def sysrules(ctx, prog, lay):
    for f in prog.funcs:
        slow = [i for i in f.insts() if i.iscall and (i.callee or '') in Sys.SLOW]
        m = re.match(r'^pfi::network::(stream_socket|server_socket)::(\w+)\(', f.dem)
        if not m or not slow:
            continue
        name = m.group(2)
        W = f.blocks[0][0].where() or f.file
        for s in slow:
            ctx.ob('%s in %s' % (s.callee, f.short), s.where())
        e = Sys(prog, f)
        heads = f.loops()
        e.cuts = set(heads)
        try:
            seen, work, done = set(), [(0, None)], []
            while work:
                b, p = work.pop()
                for q in e.run(b, p):
                    done.append((b, q))
                    if isinstance(q.end, tuple) and q.end[0] == 'cut' and q.end[1] not in seen:
                        seen.add(q.end[1])
                        n = Path()
                        n.env = dict(q.env)
                        for k in q.phis:
                            n.env[k] = q.phis[k] if isinstance(q.phis[k], tuple) else var('h', k)
                        n.log = list(q.log)
                        work.append((q.end[1], n))
            for b, q in done:
                for x in q.ev:
                    if x[0] not in Sys.SLOW:
                        continue
                    r = var('res', x[0], x[3])
                    # excluded that it was interrupted?
                    neg = known(q, r, 'lt0')
                    intr = known(q, var('errno', x[3]), 'eintr')
                    if neg in (False, 'never') or intr in (False, 'never'):
                        continue
                    if isinstance(q.end, tuple) and q.end[0] == 'cut':
                        hb = heads[q.end[1]]
                        blk = next((k for k, bl in enumerate(f.blocks) if any(y is x[1] for y in bl)), None)
                        inner = min((h for h in heads if blk in heads[h]), key=lambda h: len(heads[h]), default=None)
                        if blk in hb and q.end[1] == inner and intr and not any(y[0] == 'call' for y in q.ev[q.ev.index(x) + 1:]):
                            continue
                    ctx.bad('eintr-' + name, f, x[1].where(), '%s: an interrupted %s() is not repeated' % (f.short, x[0]))
            wrapper(ctx, f, name, done, lay, W)
        except Undecided as x:
            ctx.count('undecided')
            ctx.samples.append('undecided %s: %s' % (f.short, x))


def known(q, r, what):
    """what the path's conditions say about a system call's result ('lt0', 'le0') or errno ('eintr')"""
    lo, hi, out = -10 ** 9, 10 ** 9, set()
    for c, v in q.conds:
        if c[0] != 'cmp' or not isinstance(c[2], R) or not isinstance(c[3], R):
            continue
        for s in (1, -1):
            z = (c[2] - c[3]) * num(s)
            k = (z - r).const()
            if k is None:
                continue
            k = int(k)
            p = c[1] if v else NEG[c[1]]
            p = p if s > 0 else SWAP[p]
            # r + k p 0
            if p == 'lt':
                hi = min(hi, -k - 1)
            elif p == 'le':
                hi = min(hi, -k)
            elif p == 'gt':
                lo = max(lo, -k + 1)
            elif p == 'ge':
                lo = max(lo, -k)
            elif p == 'eq':
                lo, hi = max(lo, -k), min(hi, -k)
            else:
                out.add(-k)
    if what != 'eintr':
        lo = max(lo, -1)
    while lo in out:
        lo += 1
    while hi in out:
        hi -= 1
    if lo > hi:
        return 'never'
    if what == 'eintr':
        return True if lo == hi == 4 else (False if 4 in out or not lo <= 4 <= hi else None)
    if what == 'lt0':
        return True if hi < 0 else (False if lo >= 0 else None)
    return True if hi <= 0 else (False if lo > 0 else None)


def wrapper(ctx, f, name, done, lay, W):
    """stream_socket::recv and send"""
    if name not in ('recv', 'send') or 'stream_socket' not in f.dem:
        return
    bad = lambda m, i=None: ctx.bad('transfer-' + name, f, (i.where() if i is not None else '') or W, 'stream_socket::%s: %s' % (name, m))
    for b, q in done:
        if q.end != 'ret':
            continue
        x = [e for e in q.ev if e[0] == name]
        if not x:
            if isinstance(q.ret, R) and q.ret.const() is not None and q.ret.const() > 0:
                bad('bytes are reported without having been transferred')
            continue
        x = x[-1]
        fd, buf, n, fl = x[2][:4]
        if isinstance(fd, R) and not fd.same(var('ld', 'a0', lay['sock'])):
            bad('the transfer is not on the socket\'s own descriptor', x[1])
        if buf != ('P', 'a1', 0) or not isinstance(n, R) or not n.same(var('arg', 'a2')):
            if isinstance(n, R) and isinstance(buf, tuple) and buf[0] == 'P':
                bad('the transfer is not of the bytes it was asked for', x[1])
            else:
                raise Undecided('transfer')
        if isinstance(fl, R) and fl.const() is not None and int(fl.const()) & ~0x4000:
            bad('the transfer is made with flags that change its meaning', x[1])
        r = var('res', name, x[3])
        closed = any(e[0] == 'close' or e[0] == 'call' and 'stream_socket::close(' in e[3] for e in q.ev)
        le = known(q, r, 'le0')
        if le == 'never':
            continue
        if le is None:
            bad('whether the transfer failed is not tested', x[1])
            continue
        if le and not closed:
            bad('the socket stays connected after a failed transfer', x[1])
        if not le and closed:
            bad('the socket is closed after a successful transfer', x[1])
        if isinstance(q.ret, R) and not q.ret.same(r):
            if not (le and q.ret.const() is not None and q.ret.const() <= 0):
                bad('the result is not the number of bytes transferred', x[1])


def fresh(ctx, prog, lay):
    """a new descriptor starts with empty buffers; closing forgets it"""
    for f in prog.funcs:
        m = re.match(r'^pfi::network::stream_socket::(open|bind_socket|close|shutdown|connect)\(', f.dem)
        if not m:
            continue
        name = m.group(1)
        if name in ('open', 'bind_socket', 'close'):
            W = f.blocks[0][0].where() or f.file
            ctx.ob('stream_socket::%s: descriptor' % name, W)
            e = Sys(prog, f)
            e.cuts = set(f.loops())
            try:
                seen, work = set(), [(0, None)]
                while work:
                    b, p = work.pop()
                    for q in e.run(b, p):
                        if isinstance(q.end, tuple) and q.end[0] == 'cut':
                            if q.end[1] not in seen:
                                seen.add(q.end[1])
                                n = q.copy()
                                n.conds = list(q.conds)
                                work.append((q.end[1], n))
                            continue
                        if q.end != 'ret':
                            continue
                        fld = lambda n, sz=4: Formula.load(e, q, 'a0', lay[n], sz, 'i%d' % (8 * sz))
                        s = fld('sock')
                        old = var('ld', 'a0', lay['sock'])
                        if name == 'close':
                            if any(x[0] == 'close' for x in q.ev):
                                if s.const() is None or s.const() >= 0:
                                    ctx.bad('fresh-close', f, W, 'stream_socket::close: the descriptor is kept after it was closed')
                                c = fld('connected', 1)
                                if c.const() is None or c.const() != 0:
                                    ctx.bad('fresh-close', f, W, 'stream_socket::close: the socket still counts as connected')
                            continue
                        if s.same(old) or (s.const() is not None and s.const() < 0):
                            continue
                        if s.atom() and s.atom()[0] == 'res' and known(q, s, 'lt0'):
                            continue
                        if not fld('rdbuf_p').same(fld('rdbuf_end')) or fld('wrbuf_size').const() != 0:
                            ctx.bad('fresh-' + name, f, W, 'stream_socket::%s: a new descriptor starts with what is left in the buffers of the previous one' % name)
            except Undecided as x:
                ctx.count('undecided')
                ctx.samples.append('undecided %s: %s' % (f.short, x))


# ---------------------------------------------------------------- lines

class Line(Induct):
    """getline and puts: strings by length and the place of their last character"""
    def slen(self, p, r):
        k = ('len', r)
        if k not in p.env:
            p.env[k] = var('len', r, 'in')
            p.env['#nn'] = p.env.get('#nn', frozenset()) | frozenset((('len', r, 'in'),))
        return p.env[k]

    def loadbyte(self, p, r, off, sz, i):
        return var('chr', r, off.key())

    def symbolic(self, r):
        return isinstance(r, tuple) and r[0] == 'str'

    def cast(self, p, i, op, a):
        if isinstance(a, R) and i.d.get('st') == 'i8' and i.ty == 'i32' and op in ('sext', 'zext'):
            return a
        if isinstance(a, R) and op == 'trunc' and i.ty == 'i8':
            return a
        return Induct.cast(self, p, i, op, a)

    def fork(self, p, i, n, a):
        d = i.dem or ''
        if 'stream_socket::getc(' in d:
            k = p.env.get('#k', 0) + 1
            p.env['#k'] = k
            p.env[i.id] = var('c', k)
            p.ev.append(('getc', i, var('c', k)))
            return [p]
        if 'stream_socket::write(' in d:
            p.env[i.id] = var('written', len(p.ev))
            p.ev.append(('write', i, a[1], a[2], p.env[i.id]))
            return [p]
        if n == 'strlen' and isinstance(a[0], tuple):
            p.env[i.id] = var('strlen', self.ptr(a[0])[0])
            return [p]
        m = re.match(r'^std::__cxx11::basic_string<char.*?>>::(~?\w+|operator[^(]*)\((.*)', d)
        if not m:
            return None
        op, sig = m.group(1), m.group(2)
        if op == '~basic_string':
            return [p]
        if not isinstance(a[0], tuple):
            raise Undecided('string')
        if 'sret' in i.d and op == 'substr':
            dst, src = self.ptr(a[0])[0], self.ptr(a[1])[0]
            L = self.slen(p, src)
            if not (isinstance(a[2], R) and a[2].const() == 0 and isinstance(a[3], R)):
                raise Undecided('substr')
            if not (self.implies(p, L - a[3]) and self.implies(p, a[3])):
                raise Undecided('substr')
            p.env[('len', dst)] = a[3]
            p.env[('from', dst)] = p.env.get(('from', src), src)
            return [p]
        r = self.ptr(a[0])[0]
        if op == 'basic_string':
            if sig.startswith(')'):
                p.env[('len', r)] = num(0)
                p.env[('from', r)] = ('new', r)
                return [p]
            raise Undecided('string constructor')
        if op in ('length', 'size'):
            p.env[i.id] = self.slen(p, r)
            return [p]
        if op == 'empty':
            p.env[i.id] = ('cmp', 'eq', self.slen(p, r), num(0))
            return [p]
        if op in ('operator[]', 'at') and isinstance(a[1], R):
            c = a[1].const()
            p.env[i.id] = ('P', ('str', p.env.get(('from', r), r)), int(c) if c is not None else a[1])
            return [p]
        if op == 'back':
            p.env[i.id] = ('P', ('str', p.env.get(('from', r), r)), self.slen(p, r) - num(1))
            return [p]
        if op in ('c_str', 'data'):
            p.env[i.id] = ('P', ('str', p.env.get(('from', r), r)), 0)
            return [p]
        if op in ('operator+=', 'push_back') and isinstance(a[1], R):
            p.ev.append(('append', i, r, a[1]))
            p.env[('len', r)] = self.slen(p, r) + num(1)
            p.env[('from', r)] = ('app', p.env.get(('from', r), r), len(p.ev))
            p.env[i.id] = a[0]
            return [p]
        if op in ('operator=', 'assign', 'swap') and isinstance(a[1], tuple) and len(a) == 2:
            s = self.ptr(a[1])[0]
            p.env[('len', r)] = self.slen(p, s)
            p.env[('from', r)] = p.env.get(('from', s), s)
            if r == 'a1':
                p.ev.append(('out', i, s))
            p.env[i.id] = a[0]
            return [p]
        if op == 'pop_back' or op in ('resize', 'erase') and len(a) == 2 and isinstance(a[1], R):
            n = self.slen(p, r) - num(1) if op == 'pop_back' else a[1]
            p.env[('len', r)] = n
            return [p]
        if op == 'clear':
            p.env[('len', r)] = num(0)
            p.env[('from', r)] = ('new', r)
            return [p]
        raise Undecided('string operation')


def is_(p, c, k):
    """does the path know c == k / c != k?"""
    for q, v in p.conds:
        if q[0] == 'cmp' and isinstance(q[2], R) and isinstance(q[3], R):
            z = q[2] - q[3]
            for s in (z, -z):
                d = (s - c).const()
                if d is not None:
                    r = q[1] if v else NEG[q[1]]
                    if r == 'eq':
                        return -d == k
                    if r == 'ne' and -d == k:
                        return False
                    if s is z and (r == 'lt' and -d - 1 < k or r == 'le' and -d < k or r == 'gt' and -d >= k or r == 'ge' and -d > k):
                        return False
    return None


def lines(ctx, prog):
    for f in prog.funcs:
        m = re.match(r'^pfi::network::stream_socket::(getline|puts)\(', f.dem)
        if not m:
            continue
        name = m.group(1)
        W = f.blocks[0][0].where() or f.file
        ctx.ob('stream_socket::' + name, W)
        bad = lambda msg, i=None: ctx.bad('line-' + name, f, (i.where() if i is not None else '') or W, 'stream_socket::%s: %s' % (name, msg))
        try:
            e = Line(prog, f)
            if name == 'puts':
                for p in e.run(0, None):
                    if p.end != 'ret':
                        continue
                    w = [x for x in p.ev if x[0] == 'write']
                    if not w:
                        if e.truth(p, p.ret) is not False and not e.equal(p, e.slen(p, 'a1'), num(0)):
                            bad('success is reported although nothing was written')
                        continue
                    L = e.slen(p, 'a1')
                    if len(w) != 1 or w[0][2] != ('P', ('str', 'a1'), 0) or not isinstance(w[0][3], R):
                        raise Undecided('write')
                    if not e.equal(p, w[0][3], L):
                        bad('not all of the string is written', w[0][1])
                    r, k = p.ret, w[0][4]
                    if isinstance(r, R) and r.const() is not None:
                        t = any(c[0] == 'cmp' and isinstance(c[2], R) and isinstance(c[3], R) and ((c[2] - c[3]).same(k - L) or (c[3] - c[2]).same(k - L)) and (c[1] if v else NEG[c[1]]) in (('eq', 'ge', 'le') if r.const() else ('ne', 'lt', 'gt')) for c, v in p.conds)
                        if not t:
                            bad('success does not mean that everything was written', w[0][1])
                        continue
                    ok = isinstance(r, tuple) and r[0] == 'cmp' and isinstance(r[2], R) and isinstance(r[3], R) and ((r[2] - r[3]).same(k - L) and r[1] in ('eq', 'ge') or (r[3] - r[2]).same(k - L) and r[1] in ('eq', 'le'))
                    if not ok:
                        bad('success does not mean that everything was written', w[0][1])
                continue
            # getline: one pass of the loop at a time
            heads = f.loops()
            e.cuts = set(heads)
            seen, work, done = set(), [(0, None)], []
            buf = set()
            while work:
                b, p = work.pop()
                for q in e.run(b, p):
                    done.append((b, q))
                    buf |= set(x[2] for x in q.ev if x[0] == 'append')
                    if isinstance(q.end, tuple) and q.end[0] == 'cut' and q.end[1] not in seen:
                        seen.add(q.end[1])
                        n = Path()
                        n.env = dict((k, v) for k, v in q.env.items() if not (isinstance(k, tuple) and k[0] in ('len', 'from')))
                        for k in q.phis:
                            n.env[k] = q.phis[k] if isinstance(q.phis[k], tuple) else var('h', k)
                        work.append((q.end[1], n))
            if len(buf) != 1 or len(seen) > 1:
                raise Undecided('shape')
            buf = buf.pop()
            for b, q in done:
                g = [x for x in q.ev if x[0] == 'getc']
                ap = [x for x in q.ev if x[0] == 'append']
                for k, x in enumerate(g):
                    c = x[2]
                    nl, eof = is_(q, c, 10), is_(q, c, -1)
                    mine = [y for y in ap if y[3].same(c)]
                    if nl or eof:
                        if mine:
                            bad('the end of the line becomes part of it', x[1])
                        if isinstance(q.end, tuple) and q.end[0] == 'cut':
                            bad('the line continues past its end', x[1])
                    elif len(mine) != 1:
                        bad('a byte of the line is %s' % ('lost' if not mine else 'stored twice'), x[1])
                    elif nl is None or eof is None:
                        bad('a byte is stored without testing it for the end of the line', x[1])
                if any(not any(y[3].same(x[2]) for x in g) for y in ap):
                    bad('something that was not read is stored in the line', ap[0][1])
                if q.end != 'ret':
                    continue
                t = e.truth(q, q.ret) if q.ret is not None else None
                if t is None:
                    raise Undecided('result')
                last = g[-1][2] if g else None
                if not t:
                    if last is None or not is_(q, last, -1):
                        bad('failure is reported although the input has not ended')
                    elif not e.equal(q, e.slen(q, buf), num(0)):
                        bad('failure is reported although bytes were read')
                    continue
                if last is not None and is_(q, last, -1) and not e.implies(q, e.slen(q, buf) - num(1)):
                    bad('an empty line is reported at the end of the input', g[-1][1])
                if buf != 'a1' and not any(x[0] == 'out' for x in q.ev):
                    bad('the line is not handed out')
                    continue
                src = q.env.get(('from', 'a1'), 'a1')
                if src not in (buf, ('app', buf, len(q.ev)), ('new', buf)) and not (isinstance(src, tuple) and src[0] == 'app'):
                    raise Undecided('line')
                L0 = var('len', buf, 'in')
                cut = e.equal(q, e.slen(q, 'a1'), L0 - num(1))
                whole = e.equal(q, e.slen(q, 'a1'), L0) or any(x[0] == 'append' for x in q.ev)
                cr = var('chr', ('str', buf), (L0 - num(1)).key())
                if last is not None and is_(q, last, 10):
                    k = is_(q, cr, 13)
                    if cut and k is not True:
                        bad('the last byte of a line is dropped although it may not be a carriage return')
                    elif whole and not cut and k is not False and not e.equal(q, L0, num(0)):
                        bad('a carriage return before the end of the line is kept')
                elif cut:
                    bad('the last byte of a line is dropped although the line has not ended')
        except Undecided as x:
            ctx.count('undecided')
            ctx.samples.append('undecided stream_socket::%s: %s' % (name, x))


def check(ctx):
    prog = ctx.prog('sock')
    lay = layout(prog)
    if not lay:
        ctx.ob('stream_socket', 'network/socket.h')
        ctx.count('undecided')
        ctx.samples.append('undecided stream_socket: members not found')
        return
    buffered(ctx, prog, lay)
    sysrules(ctx, prog, lay)
    fresh(ctx, prog, lay)
    lines(ctx, prog)

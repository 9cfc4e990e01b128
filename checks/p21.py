"""Comma separated values: the rows read are those of the text, within the text and within the row buffer."""
import os
from pfa import AnchorLost

RULE = ('csv_parser::parser_impl::next is explored as a finite transducer: what is known of the state is the character under the cursor (or the end of the text), '
        'the write index relative to the last character kept, whether a place in the buffer is known to be there, and which addresses were taken before the '
        'buffer moved. Every sequence of separators, quotes, line ends, ordinary characters and every character constant the code compares with is followed, row '
        'after row, in step with a transducer for the format (quoted fields with doubled quotes, CR LF and LF, end of text anywhere); a read or step at the end of '
        'the text, a write where room is not known, and a kept character, field or row end that differs is a violation. In extend and copy the stored addresses are '
        'compared, as linear forms, with "new start of the buffer + distance from the old start" for every index')
ASSUME = ['vector behaves as in the standard library; what a CR that no LF follows means outside quotes is left open']

END = 'END'
Q, C, CR, LF = 34, 44, 13, 10
VC = 'std::vector<char, std::allocator<char>>::'
VP = 'std::vector<char const*, std::allocator<char const*>>::'


class Undecided(Exception):
    pass


class Bad(Exception):
    def __init__(self, rule, i, msg):
        Exception.__init__(self, msg)
        self.rule, self.i = rule, i


def feed(s, c):
    """the format: state and character to state and events"""
    done = {C: ('fld', ('nul', 'field')), LF: ('row', ('nul', 'field', 'row')), END: ('end', ('nul', 'field', 'row', 'eof'))}
    if s == 'row' and c == END:
        return 'end', ('eof',)
    if s in ('row', 'fld', 'U'):
        if c in done:
            return done[c]
        if c == CR:
            return 'cr', ('nul', 'field')
        if c == Q and s != 'U':
            return 'Q', ()
        return 'U', (('keep', c),)
    if s == 'Q':
        if c == END:
            return done[END]
        if c == Q:
            return 'QQ', ()
        return 'Q', (('keep', c),)
    if s in ('QQ', 'S'):
        if c in done:
            return done[c]
        if c == Q and s == 'QQ':
            return 'Q', (('keep', Q),)
        if c == CR:
            return 'cr', ('nul', 'field')
        return 'S', ()
    if s == 'cr':
        if c == LF:
            return 'row', ('row',)
        if c == END:
            return 'end', ('row', 'eof')
    return 'X', ()


class St(object):
    __slots__ = ('env', 'mem', 'cur', 'prev', 'room', 'full', 'w0', 'ref', 'queue', 'clear', 'fstart', 'fresh')

    def copy(self):
        n = St()
        for k in St.__slots__:
            setattr(n, k, getattr(self, k))
        n.env, n.mem = dict(self.env), dict(self.mem)
        return n

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), self.cur, self.prev, self.room, self.full, self.w0, self.ref, self.queue,
                self.clear, self.fstart, self.fresh)


def live_in(f):
    n = len(f.blocks)
    use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]
    for b in range(n):
        for i in f.blocks[b]:
            if i.op != 'phi':
                for o in i.ops:
                    if o and o[0] == '%' and o not in dfn[b]:
                        use[b].add(o)
                for o, _ in i.d.get('var') or ():
                    if o[0] == '%' and o not in dfn[b]:
                        use[b].add(o)
            dfn[b].add(i.id)
    live = [set(u) for u in use]
    more = True
    while more:
        more = False
        for b in reversed(range(n)):
            new = set(use[b])
            for s in f.succs(b):
                for i in f.blocks[s]:
                    if i.op == 'phi':
                        for o, p in zip(i.ops, i.d['in']):
                            if p == b and o[0] == '%' and o not in dfn[b]:
                                new.add(o)
                new |= (live[s] - dfn[b])
            for i in f.blocks[b]:
                if i.op == 'phi':
                    pass
            if new - live[b]:
                live[b] |= new
                more = True
    return live


class Reader(object):
    def __init__(self, f, lay):
        self.f, self.lay = f, lay
        self.live = live_in(f)
        # phis that become an index of the buffer
        idx = set()
        work = [i.ops[1] for i in f.insts() if i.iscall and (i.dem or '').startswith(VC + 'operator[]')]
        while work:
            v = work.pop()
            if v in idx or v[0] != '%':
                continue
            idx.add(v)
            d = f.defs.get(v)
            if d is not None and d.op in ('phi', 'add', 'sub', 'select'):
                work += list(d.ops[1:] if d.op == 'select' else d.ops)
        self.idx = idx
        self.counters = set(i.id for i in f.insts() if i.op == 'phi' and any(f.defs[o].op in ('add', 'sub') and i.id in f.defs[o].ops for o in i.ops if o in f.defs))
        chars = {Q, C, CR, LF, 97, -1}
        for i in f.insts():
            if i.op == 'icmp' and i.d.get('st') in ('i8', 'i32'):
                for o in i.ops:
                    if o.startswith('c:'):
                        k = int(o[2:])
                        if 0 < k < 127:
                            chars.add(k)
            if i.op == 'switch':
                for k, _ in i.d['cases']:
                    if 0 < int(k) < 127:
                        chars.add(int(k))
        self.alphabet = sorted(chars) + [END]
        self.nstates = self.nwrites = 0

    # ---- events
    def event(self, st, e, i):
        if st.ref == 'X':
            return
        q = st.queue
        if q and q[0] == e:
            st.queue = q[1:]
            return
        if len(q) > 1 and q[1] == e and {q[0], e} == {'nul', 'field'}:
            st.queue = (q[0],) + q[2:]
            return
        say = {'nul': 'a field is ended', 'field': 'a field is added to the row', 'row': 'the row is returned', 'eof': 'the end of the text is reported'}
        want = {'nul': 'the end mark of the field', 'field': 'the field added to the row', 'row': 'the end of the row', 'eof': 'the end of the text'}
        got = say.get(e) or ('the character %s is kept' % show(e[1]))
        exp = 'nothing more' if not q else (want.get(q[0]) or 'the character %s' % show(q[0][1]))
        raise Bad('content', i, '%s where %s was due' % (got, exp))

    def take(self, st, c):
        st.cur = c
        st.ref, ev = feed(st.ref, c)
        st.queue = st.queue + ev

    # ---- values
    def val(self, st, o):
        if o is None:
            return ('u',)
        if o[0] == '%':
            return st.env.get(o, ('u',))
        if o.startswith('c:'):
            try:
                return ('n', int(o[2:]))
            except ValueError:
                return ('u',)
        if o == 'a0':
            return ('self', 0)
        return ('u',)

    def index(self, st, v):
        if v[0] == 'i':
            return v
        if v[0] == 'n' and v[1] == 0 and st.w0:
            return ('i', 0, True)
        return None

    def wrote(self, st):
        def sh(v):
            if v[0] == 'i':
                k = v[1]
                return ('i', None if k is None or k <= -1 else k - 1, v[2])
            if v[0] == 'a' and v[1] is not None:
                return ('a', sh(v[1]), v[2])
            return v
        st.env = {k: sh(v) for k, v in st.env.items()}
        st.mem = {k: sh(v) for k, v in st.mem.items()}
        st.w0 = st.fresh = False
        st.room = max(0, st.room - 1)
        st.full = None

    def newfield(self, st):
        """an index equal to the write index is the start of the next field"""
        def ns(v):
            if v[0] == 'i':
                return ('i', v[1], v[1] == 0)
            if v[0] == 'a' and v[1] is not None:
                return ('a', ns(v[1]), v[2])
            return v
        st.env = {k: ns(v) for k, v in st.env.items()}
        st.mem = {k: ns(v) for k, v in st.mem.items()}

    def ended(self, st, e, i):
        self.event(st, e, i)
        if st.ref == 'X':
            return
        # both the mark and the field: next field
        if e == 'nul':
            st.fstart = (st.fstart[0] + 1, st.fstart[1])
        else:
            st.fstart = (st.fstart[0], st.fstart[1] + 1)
        if st.fstart == (1, 1):
            st.fstart = (0, 0)
            self.newfield(st)
            st.fresh = True

    def moved(self, st):
        def mv(v):
            if v[0] == 'a':
                return ('a', v[1], True)
            if v[0] == 'sz' or v[0] == 'szg':
                return ('szx',)
            return v
        st.env = {k: mv(v) for k, v in st.env.items()}
        st.mem = {k: mv(v) for k, v in st.mem.items()}

    # ---- instructions
    def inst(self, st, i):
        """None, or the value"""
        op = i.op
        v = lambda k: self.val(st, i.ops[k])
        if op == 'alloca':
            return ('al', i.id, 0)
        if op == 'getelementptr':
            b = v(0)
            if i.d.get('var'):
                return ('szx',) if b[0] in ('a', 'u') else ('u',)
            off = i.d['off']
            if b[0] == 'self':
                return ('self', b[1] + off)
            if b[0] == 'al':
                return ('al', b[1], b[2] + off)
            if b[0] == 'p':
                return ('p', b[1] + off) if -1 <= b[1] + off <= 1 else ('u',)
            if off == 0:
                return b
            return ('u',)
        if op == 'load':
            b = v(0)
            if b[0] == 'self' or b[0] == 'al':
                return st.mem.get(b, ('u',))
            if b[0] == 'p':
                if b[1] == 0:
                    if st.cur == END:
                        raise Bad('end of text', i, 'the text is read at its end')
                    return ('n', st.cur)
                if b[1] == -1:
                    return ('n', st.prev)
                raise Undecided('read ahead of the cursor')
            if b[0] == 'q':
                raise Bad('end of text', i, 'the text is read at its end')
            return ('u',)
        if op == 'store':
            x, b = v(0), v(1)
            if b == ('self', self.lay['p']):
                if x == ('p', 0):
                    return None
                if x != ('p', 1):
                    raise Undecided('cursor set to %r' % (x,))
                if st.cur == END:
                    raise Bad('end of text', i, 'the cursor is moved past the end of the text')
                return 'advance'
            if b[0] in ('self', 'al'):
                st.mem[b] = x
                return None
            if b[0] == 'a':
                if b[2]:
                    raise Bad('buffer', i, 'a character is written through an address taken before the buffer moved')
                if x[0] != 'n':
                    raise Undecided('character written')
                w = b[1]
                if w is None:
                    raise Undecided('place written')
                if w[1] is None or w[1] != 0:
                    if w[1] is None and not w[2]:
                        raise Undecided('place written')
                    raise Bad('content', i, 'a character is written %s the next free place of the row' % ('past' if (w[1] or 0) > 0 else 'before'))
                if st.room < 1:
                    raise Bad('buffer', i, 'a character is written where the buffer may be full')
                self.nwrites += 1
                self.wrote(st)
                if x[1] == 0:
                    self.ended(st, 'nul', i)
                else:
                    self.event(st, ('keep', x[1]), i)
                return None
            if b[0] in ('p', 'q'):
                raise Undecided('text written')
            if b[0] == 'cura':
                return None
            raise Undecided('store')
        if op == 'icmp':
            return self.cmp(st, i, v(0), v(1))
        if op in ('sext', 'bitcast', 'freeze'):
            return v(0)
        if op == 'zext':
            a = v(0)
            if a[0] == 'n' and a[1] < 0:
                w = int(i.d['st'][1:])
                return ('n', a[1] & ((1 << w) - 1))
            return a
        if op == 'trunc':
            a = v(0)
            if a[0] == 'n':
                if a[1] in (0, 1):
                    return a
                k = a[1] & 0xff
                return ('n', k - 256 if k > 127 else k)
            return ('u',)
        if op in ('add', 'sub'):
            a, b = v(0), v(1)
            if op == 'add' and a[0] == 'n' and b[0] != 'n':
                a, b = b, a
            if a[0] == 'n' and b[0] == 'n' and i.id in self.idx and st.w0 and a[1] == 0 and op == 'add':
                a = ('i', 0, True)
            if b[0] == 'n':
                k = b[1] if op == 'add' else -b[1]
                if a[0] == 'n':
                    return ('n', a[1] + k)
                if a[0] == 'i':
                    if k == 0:
                        return a
                    if a[1] is None or not -1 <= a[1] + k <= 2:
                        return ('u',)
                    return ('i', a[1] + k, a[1] + k == 0 and st.fresh)
                if a[0] == 'sz':
                    return ('szg', 1) if k > 0 else ('szx',)
                if a[0] == 'szx':
                    return a
            if a[0] in ('sz', 'szx', 'i', 'n', 'szg') and b[0] in ('sz', 'szx', 'i', 'n', 'szg'):
                return ('szg', 2) if op == 'add' and a == b == ('sz',) else ('szx',)
            return ('u',)
        if op in ('mul', 'shl'):
            a, b = v(0), v(1)
            if a[0] == 'n' and b[0] != 'n' and op == 'mul':
                a, b = b, a
            if a[0] == 'n' and b[0] == 'n':
                return ('n', a[1] * b[1] if op == 'mul' else a[1] << b[1])
            if a[0] == 'sz' and b[0] == 'n':
                k = b[1] if op == 'mul' else 1 << b[1]
                return ('szg', 2) if k >= 2 else (a if k == 1 else ('szx',))
            return ('szx',) if a[0].startswith('sz') else ('u',)
        if op in ('and', 'or', 'xor'):
            a, b = v(0), v(1)
            if a[0] == 'n' and b[0] == 'n':
                return ('n', {'and': a[1] & b[1], 'or': a[1] | b[1], 'xor': a[1] ^ b[1]}[op])
            if op == 'xor' and a[0] == 'room' and b[0] == 'n':
                return ('room', a[1], not a[2], a[3])
            return ('u',)
        if op == 'select':
            c = v(0)
            if c[0] == 'n':
                return v(1) if c[1] else v(2)
            return ('u',)
        if op == 'ptrtoint':
            return ('szx',) if v(0)[0] in ('a', 'u') else ('u',)
        if op == 'inttoptr':
            return ('u',)
        if i.iscall:
            return self.call(st, i)
        if op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'landingpad'):
            return None
        return ('u',)

    def cmp(self, st, i, a, b):
        p = i.d['p']
        if a[0] == 'n' and b[0] == 'n':
            x, y = a[1], b[1]
            if p[0] == 'u' and (x < 0 or y < 0):
                w = int(i.d['st'][1:]) if i.d.get('st', '')[:1] == 'i' else 64
                x, y = x & ((1 << w) - 1), y & ((1 << w) - 1)
            return ('n', int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[p if p in ('eq', 'ne') else p[1:]]))
        if {a[0], b[0]} == {'p', 'q'} and p in ('eq', 'ne'):
            k = (a if a[0] == 'p' else b)[1]
            if k == 0:
                e = st.cur == END
            elif k == -1:
                e = False
            else:
                raise Undecided('comparison ahead of the cursor')
            return ('n', int(e == (p == 'eq')))
        x, y = self.index(st, a), self.index(st, b)
        if a[0] == 'sz' and y and y[1] is not None and not x:
            a, b, x = b, a, y
            p = {'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule'}.get(p, p)
        if x and x[1] is not None and b[0] == 'sz':
            k = x[1]
            # ('room', k, polarity, m): when true/false, index k is below the size / at or past it
            if p == 'ult':
                return ('room', k, True, k)
            if p == 'uge':
                return ('room', k, False, k)
            if p == 'eq':
                return ('room', k, False, k)
            if p == 'ne':
                return ('room', k, True, k)
            if p == 'ule':
                return ('room', k - 1, True, k)
            if p == 'ugt':
                return ('room', k - 1, False, k)
        if a[0] in ('sz', 'szx', 'szg', 'i', 'n') and b[0] in ('sz', 'szx', 'szg', 'i', 'n'):
            return ('free',)
        return ('u',)

    def call(self, st, i):
        n = i.dem or ''
        if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.assume'):
            return None
        args = [self.val(st, o) for o in i.ops]
        buf, cur = ('self', self.lay['buf']), ('self', self.lay['cur'])
        if args and args[0] == buf:
            if n.startswith(VC + 'size('):
                return ('sz',)
            if n.startswith(VC + 'capacity('):
                return ('szx',)
            if n.startswith(VC + 'operator[]('):
                w = self.index(st, args[1])
                return ('a', w, False)
            if n.startswith(VC + 'data(') or n.startswith(VC + 'front('):
                return ('a', None, False)
            if n.startswith(VC + 'resize('):
                g = args[1]
                if g[0] != 'szg':
                    if g[0] == 'sz':
                        raise Bad('buffer', i, 'the full buffer is resized to the size it has')
                    raise Undecided('new size')
                self.moved(st)
                # the write index is at most the size, before
                st.room = max(st.room, 1, (st.full + 1) if st.full is not None and g[1] == 2 else 1)
                st.full = None
                return None
            if n.startswith(VC + 'reserve('):
                self.moved(st)
                st.full = None
                return None
            if n.startswith(VC + 'empty('):
                return ('free',)
            raise Undecided(n[:60])
        if args and args[0] == cur:
            if n.startswith(VP + 'clear('):
                st.clear = True
                return None
            if n.startswith(VP + 'size('):
                return ('szx',)
            if n.startswith(VP + 'operator[](') or n.startswith(VP + 'begin(') or n.startswith(VP + 'end(') or n.startswith(VP + 'data('):
                return ('cura',)
            if n.startswith(VP + 'push_back('):
                x = st.mem.get(args[1]) if args[1][0] in ('al', 'self') else None
                if not x or x[0] != 'a' or x[1] is None:
                    raise Undecided('address added to the row')
                if x[2]:
                    raise Bad('buffer', i, 'the address of a field taken before the buffer moved is added to the row')
                if not x[1][2]:
                    if st.ref == 'X':
                        return None
                    raise Bad('content', i, 'the address added to the row is not the start of the field')
                if not st.clear:
                    raise Bad('content', i, 'a field is added to the row of before')
                self.ended(st, 'field', i)
                return None
            raise Undecided(n[:60])
        if '__normal_iterator<char const**' in n and all(a[0] != 'self' and not (a[0] == 'al' and st.mem.get(a, ('u',))[0] in ('p', 'q', 'i')) for a in args):
            return ('free',) if 'bool' in n[:5] or 'operator!=' in n or 'operator==' in n else ('cura',)
        if any(a[0] in ('self', 'p', 'q', 'al') for a in args):
            raise Undecided('call of ' + n[:60])
        return ('u',)

    # ---- exploration
    def run(self):
        f = self.f
        seen, work = {}, []

        def push(b, pred, st, text):
            lv = self.live[b]
            phis = []
            for i in f.blocks[b]:
                if i.op != 'phi':
                    break
                o = i.ops[i.d['in'].index(pred)]
                x = self.val(st, o)
                me = i.id
                if x == ('n', 0) and st.w0 and me in self.idx:
                    x = ('i', 0, True)
                elif x[0] == 'n' and me not in self.idx and me in self.counters:
                    x = ('szx',)
                phis.append((me, x))
            st.env = {k: v for k, v in st.env.items() if k in lv}
            for k, x in phis:
                st.env[k] = x
            if not any(v == ('p', -1) for v in st.env.values()):
                st.prev = None
            key = (b, st.key())
            if key in seen:
                return
            seen[key] = text
            work.append((b, st, text))
            if len(seen) > 60000:
                raise Undecided('too many states')

        for c in self.alphabet:
            st = St()
            st.env, st.mem = {}, {('self', self.lay['p']): ('p', 0), ('self', self.lay['q']): ('q',)}
            st.cur, st.prev, st.room, st.full, st.w0 = None, None, 0, None, True
            st.ref, st.queue, st.clear, st.fstart, st.fresh = 'row', (), False, (0, 0), True
            self.take(st, c)
            push(0, None, st, (c,))
        k = 0
        while k < len(work):
            b, st, text = work[k]
            work[k] = None
            k += 1
            states = [(st.copy(), text)]
            ins = [i for i in f.blocks[b] if i.op != 'phi']
            for i in ins:
                nxt = []
                for s, tx in states:
                    if s.ref == 'X' or len(s.queue) > 8:
                        continue
                    try:
                        r = self.inst(s, i)
                    except Bad as e:
                        e.text = tx
                        raise
                    if r == 'advance':
                        def sh(v):
                            if v[0] == 'p':
                                return ('p', v[1] - 1) if v[1] - 1 >= -1 else ('u',)
                            return v
                        s.env = {a: sh(v) for a, v in s.env.items()}
                        s.mem = {a: sh(v) for a, v in s.mem.items()}
                        s.mem[('self', self.lay['p'])] = ('p', 0)
                        s.prev = s.cur
                        for c in self.alphabet:
                            n = s.copy()
                            self.take(n, c)
                            nxt.append((n, tx + (c,)))
                        continue
                    if r is not None:
                        s.env[i.id] = r
                    nxt.append((s, tx))
                states = nxt
            t = ins[-1]
            for s, tx in states:
                if s.ref == 'X':
                    continue
                if t.op == 'ret':
                    r = self.val(s, t.ops[0])
                    if r[0] != 'n':
                        raise Undecided('result')
                    try:
                        if r[1]:
                            if not s.clear:
                                raise Bad('content', t, 'the row of before is not cleared')
                            self.event(s, 'row', t)
                        else:
                            self.event(s, 'eof', t)
                    except Bad as e:
                        e.text = tx
                        raise
                    if r[1]:
                        n = s.copy()
                        n.env = {}
                        n.mem = {('self', self.lay['p']): ('p', 0), ('self', self.lay['q']): ('q',)}
                        n.room, n.full, n.w0, n.clear, n.fstart, n.fresh = 0, None, True, False, (0, 0), True
                        push(0, None, n, tx)
                    continue
                if t.op == 'br' and len(t.ops) == 1:
                    c = self.val(s, t.ops[0])
                    for side in (1, 0):
                        if c[0] == 'n':
                            if bool(c[1]) != bool(side):
                                continue
                            n = s.copy()
                        elif c[0] == 'room':
                            n = s.copy()
                            if bool(side) == c[2]:
                                n.room = max(n.room, c[1] + 1)
                            else:
                                n.full = c[3]
                        elif c[0] == 'free':
                            n = s.copy()
                        else:
                            raise Undecided('branch at ' + t.where())
                        push(t.d['succ'][0 if side else 1], b, n, tx)
                elif t.op == 'switch':
                    c = self.val(s, t.ops[0])
                    if c[0] != 'n':
                        raise Undecided('switch')
                    to = [x for kk, x in t.d['cases'] if int(kk) == c[1]]
                    push(to[0] if to else t.d['def'], b, s.copy(), tx)
                elif t.op == 'br':
                    push(t.d['succ'][0], b, s.copy(), tx)
                elif t.op == 'invoke':
                    push(t.d['normal'], b, s.copy(), tx)
                elif t.op == 'unreachable':
                    pass
                else:
                    raise Undecided(t.op)
        self.nstates = len(seen)


def show(c):
    return {Q: '"', C: ',', CR: 'CR', LF: 'LF', END: 'end'}.get(c) or (repr(chr(c)) if 32 < c < 127 else '\\x%02x' % (c & 255))


def rebase(ctx, prog, f, lay, who):
    """every address stored: new start + (old address - old start)"""
    copy = who == 'copy'

    def vec(o):
        d = f.defs.get(o) if o[0] == '%' else None
        if o in ('a1', 'a2') and copy:
            return {'a1': 'row', 'a2': 'newbuf'}[o]
        if d is not None and d.op == 'getelementptr' and d.ops[0] == 'a0' and not d.d.get('var'):
            return {lay['cur']: 'cur', lay['buf']: 'buf'}.get(d.d['off'])
        return None

    def start(o):
        """the start of a buffer: which, where"""
        d = f.defs.get(o) if o[0] == '%' else None
        if d is None:
            return None
        n = d.dem or '' if d.iscall else ''
        if n.startswith(VC + 'operator[](') and d.ops[1] == 'c:0' or n.startswith(VC + 'data(') or n.startswith(VC + 'front('):
            w = vec(d.ops[0])
            return (w, d) if w in ('buf', 'newbuf') else None
        return None

    def elem(o):
        d = f.defs.get(o) if o[0] == '%' else None
        if d is not None and d.iscall and (d.dem or '').startswith(VP + 'operator[]('):
            w = vec(d.ops[0])
            if w in ('cur', 'row'):
                return w, d.ops[1]
        return None

    moves = []
    for i in f.insts():
        if i.iscall and i.ops and vec(i.ops[0]) == ('newbuf' if copy else 'buf'):
            n = i.dem or ''
            if n.startswith(VC + 'resize(') or n.startswith(VC + 'operator=(') or n.startswith(VC + 'assign(') or n.startswith(VC + 'reserve('):
                moves.append(i)
    if len(moves) != 1:
        raise Undecided('%s: %d moves of the buffer' % (who, len(moves)))
    mv = moves[0]
    stores = []
    for i in f.insts():
        if i.op == 'store' and i.d.get('vt') == 'ptr':
            e = elem(i.ops[1])
            if e:
                stores.append((i, e))
    target = 'row' if copy else 'cur'
    touched = [i for i in f.insts() if i.iscall and i.ops and vec(i.ops[0]) == target
               and not any((i.dem or '').startswith(VP + x) for x in ('size(', 'resize(', 'reserve(', 'clear(', 'operator=('))]
    if not stores:
        if not touched and not any(i.iscall and not (i.dem or '').startswith(('std::', 'llvm.')) for i in f.insts()):
            ctx.bad('addresses', f, mv.where(), '%s: the buffer is %s but the addresses of the fields are not moved with it' % (who, 'copied' if copy else 'resized'))
            return
        raise Undecided(who + ': no store of an address seen')
    ctx.ob('%s: the addresses of all fields move with the buffer' % who, stores[0][0].where())
    for i, (w, ix) in stores:
        if w != target:
            raise Undecided(who + ': store')
        g = f.defs.get(i.ops[0])
        if g is None or g.op != 'getelementptr' or len(g.d.get('var') or ()) != 1 or g.d['var'][0][1] != 1 or g.d['off'] != 0:
            e = elem(i.ops[0]) if g is not None and g.op != 'load' else (elem(g.ops[0]) if g is not None and g.op == 'load' else None)
            if e:
                ctx.bad('addresses', f, i.where(), '%s: the address of a field is kept as it was, into the buffer of before' % who)
                return
            raise Undecided(who + ': address')
        new = start(g.ops[0])
        d = f.defs.get(g.d['var'][0][0])
        if new is None or d is None or d.op != 'sub':
            raise Undecided(who + ': address')
        a, b = (f.defs.get(o) for o in d.ops)
        if a is None or b is None or a.op != 'ptrtoint' or b.op != 'ptrtoint':
            raise Undecided(who + ': distance')
        la = f.defs.get(a.ops[0])
        e = elem(la.ops[0]) if la is not None and la.op == 'load' else None
        old = start(b.ops[0])
        if e is None or e[0] != 'cur' or old is None:
            raise Undecided(who + ': distance')
        if e[1] != ix:
            ctx.bad('addresses', f, i.where(), '%s: the address of one field is computed from that of another' % who)
            return
        if new[0] != ('newbuf' if copy else 'buf') or not f.dominates(mv, new[1]):
            ctx.bad('addresses', f, i.where(), '%s: the new address is not counted from the start of the %s buffer' % (who, 'copied' if copy else 'resized'))
            return
        if old[0] != 'buf' or (not copy and f.dominates(mv, old[1])):
            ctx.bad('addresses', f, i.where(), '%s: the distance is not counted from the start of the buffer of before' % who)
            return
        if not copy and not f.dominates(old[1], mv):
            raise Undecided(who + ': order')
        # the loop
        ph = f.defs.get(ix)
        if ph is None or ph.op != 'phi' or len(ph.ops) != 2:
            raise Undecided(who + ': loop')
        ini = [o for o in ph.ops if o.startswith('c:')]
        stp = [f.defs.get(o) for o in ph.ops if o[0] == '%']
        if len(ini) != 1 or len(stp) != 1 or stp[0] is None or stp[0].op != 'add' or stp[0].ops != [ix, 'c:1']:
            raise Undecided(who + ': loop')
        if ini[0] != 'c:0':
            ctx.bad('addresses', f, i.where(), '%s: the loop over the fields starts at %s' % (who, ini[0][2:]))
            return
        t = f.blocks[ph.blk][-1]
        c = f.defs.get(t.ops[0]) if t.op == 'br' and len(t.ops) == 1 else None
        l = f.defs.get(c.ops[0]) if c is not None and c.op == 'icmp' else None
        if l is not None and l.op in ('add', 'sub') and l.ops[0] == ix and l.ops[1].startswith('c:') and l.ops[1] != 'c:0' and c.d['p'] in ('ult', 'ne'):
            s = f.defs.get(c.ops[1])
            if s is not None and s.iscall and (s.dem or '').startswith(VP + 'size('):
                ctx.bad('addresses', f, c.where(), '%s: the loop over the fields does not end at their number' % who)
                return
        if c is None or c.op != 'icmp' or c.ops[0] != ix:
            raise Undecided(who + ': loop test')
        s = f.defs.get(c.ops[1])
        if s is None:
            raise Undecided(who + ': loop bound')
        if s.op in ('add', 'sub') and s.ops[1].startswith('c:') and s.ops[1] != 'c:0':
            s0 = f.defs.get(s.ops[0])
            if s0 is not None and s0.iscall and (s0.dem or '').startswith(VP + 'size('):
                ctx.bad('addresses', f, c.where(), '%s: the loop over the fields does not end at their number' % who)
                return
        if not (s.iscall and (s.dem or '').startswith(VP + 'size(') and vec(s.ops[0]) in ('cur', 'row')) or c.d['p'] not in ('ult', 'ne'):
            raise Undecided(who + ': loop bound')
        if vec(s.ops[0]) == 'row':
            raise Undecided(who + ': loop bound')
    ctx.count('addresses moved')


def check(ctx):
    prog = ctx.prog('csv')

    def fn(n):
        fs = [f for f in prog.funcs if f.dem.startswith('driver_csv::' + n + '(')]
        if not fs:
            raise AnchorLost(n)
        return fs[0]

    def und(e):
        ctx.count('undecided')
        ctx.samples.append('undecided: %s' % e)
        if os.environ.get('UND'):
            print('undecided', e)

    make, nx = fn('make'), fn('next')
    lay = {}
    for i in make.insts():
        def at(o):
            d = make.defs.get(o) if o[0] == '%' else None
            if o == 'a0':
                return 0
            return d.d['off'] if d is not None and d.op == 'getelementptr' and d.ops[0] == 'a0' else None
        if i.op == 'store' and i.ops[0] in ('a1', 'a2') and at(i.ops[1]) is not None:
            lay[{'a1': 'p', 'a2': 'q'}[i.ops[0]]] = at(i.ops[1])
        if i.iscall and i.ops and (i.dem or '').startswith(VC + 'vector(') and at(i.ops[0]) is not None:
            lay['buf'] = at(i.ops[0])
            lay['size'] = i
        if i.iscall and i.ops and (i.dem or '').startswith(VP + 'vector(') and at(i.ops[0]) is not None:
            lay['cur'] = at(i.ops[0])
    if not all(k in lay for k in ('p', 'q', 'buf', 'cur')):
        raise AnchorLost('members of parser_impl')
    i = lay['size']
    ctx.ob('the buffer of a row is not empty at first', i.where())
    if len(i.ops) == 1 or i.ops[1] == 'c:0':
        ctx.bad('buffer', make, i.where(), 'the buffer of a row has no place at first, and twice none is none')
    r = Reader(nx, lay)
    ctx.ob('next() keeps the fields of every row of every text', 'csv.h')
    ctx.ob('next() stays within the text', 'csv.h')
    ctx.ob('next() writes within the buffer of the row', 'csv.h')
    try:
        r.run()
        ctx.count('states', r.nstates)
        ctx.count('writes', r.nwrites)
        ctx.count('rows decided')
    except Bad as e:
        ctx.bad(e.rule, nx, e.i.where(), '%s (text: %s)' % (e.args[0], ' '.join(show(c) for c in e.text)))
    except Undecided as e:
        und(e)
    for who in ('extend', 'copy'):
        try:
            rebase(ctx, prog, fn(who), lay, who)
        except Undecided as e:
            und(e)

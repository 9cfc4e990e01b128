"""Abstract interpretation of code over standard containers.

The contents of a map are abstracted to what the path knows about individual keys: in, out, or as at the start of the epoch
(an epoch starts at the entry of the function, at a loop head, and wherever another thread may have intervened). Elements are
memory roots, so that their fields take part in value numbering; an ordered set is abstracted to the tuples inserted and erased
since the start of the epoch and to its smallest (largest) element. A query whose answer is not known forks the path."""
from formula import *

END = ('end',)


def method(dem):
    """(class, method) of a demangled standard library function"""
    s = dem.replace('operator->', 'operator@ARROW').replace('operator<', 'operator@LT').replace('operator>', 'operator@GT')
    out, d = [], 0
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    s = ''.join(out).replace('[abi:cxx11]', '')
    m = re.match(r'^(.*?)\(', s)
    s = (m.group(1) if m else s).strip().split(' ')[-1]
    s = s.replace('@ARROW', '->').replace('@LT', '<').replace('@GT', '>')
    if '::' not in s:
        return '', s
    c, m = s.rsplit('::', 1)
    return c.replace('std::__cxx11::', 'std::'), m


class Violation(Exception):
    pass


class Cont:
    """what is known of one container on a path (immutable; replaced on update)"""
    __slots__ = ('facts', 'nodes', 'delta', 'epoch', 'cleared', 'ins', 'era', 'tick')

    def __init__(self, epoch=0):
        self.facts = ()     # ((key, True/False), ...)   current membership
        self.nodes = ()     # ((key, root), ...)         current element of a key
        self.delta = 0
        self.epoch = epoch
        self.cleared = False
        self.ins = ()       # tuples inserted and not erased since
        self.era = ()       # tuples of the start that have been erased
        self.tick = 0

    def but(self, **kw):
        c = Cont()
        for s in self.__slots__:
            setattr(c, s, kw.get(s, getattr(self, s)))
        return c


class Contain(Formula):
    MAPS = ('std::map', 'std::unordered_map', 'pfi::data::unordered_map')
    SETS = ('std::multiset', 'std::set')
    keylay = [(0, 4, 'i32')]     # layout of a key: (offset, size, type)
    tuplay = [(0, 8, 'i64')]     # layout of what precedes the key in a set's tuples
    tupkey = 8
    valoff = 8                   # of the mapped value in a map's element

    def conts(self, p):
        return p.env.get('#c', {})

    def cont(self, p, cid):
        c = self.conts(p).get(cid)
        return c if c is not None else Cont(p.env.get('#epoch', 0))

    def setc(self, p, cid, c):
        d = dict(self.conts(p))
        d[cid] = c
        p.env['#c'] = d

    def say(self, p, *e):
        p.ev.append(e)

    # --- values
    def val(self, p, v):
        if isinstance(v, str) and v.startswith('k:{') and v not in p.env:
            return ('A', (((0,), num(1)), ((1,), num(0))))
        if v == 'zero' and v not in p.env:
            return ('A', (((0,), num(0)), ((1,), num(0))))
        return Formula.val(self, p, v)

    def cast(self, p, i, op, a):
        if isinstance(a, R) and op in ('trunc', 'sext', 'zext') and i.ty != 'i1':
            if any(isinstance(x, tuple) and x and x[0] == 'size' for x in a.atoms()):
                return a
        if op == 'trunc' and i.ty == 'i1' and isinstance(a, R) and a.atom() and a.atom()[0] == 'arg' and \
                self.f.d['args'][int(a.atom()[1][1:])]['t'] == 'i1':
            return a
        return Formula.cast(self, p, i, op, a)

    def load(self, p, root, off, sz, ty, upto=None):
        if root in p.env.get('#dead', ()) and upto is None:
            self.say(p, 'dead', root, off)
        return Formula.load(self, p, root, off, sz, ty, upto)

    def readkey(self, p, ptr, base=0):
        r, o = self.ptr(ptr)
        return tuple(self.scalar(self.load(p, r, o + base + f, s, t)) for f, s, t in self.keylay)

    def readtup(self, p, ptr):
        r, o = self.ptr(ptr)
        return (tuple(self.scalar(self.load(p, r, o + f, s, t)) for f, s, t in self.tuplay), self.readkey(p, ptr, self.tupkey))

    def scalar(self, x):
        if isinstance(x, R):
            return x.key()
        if isinstance(x, tuple) and x and x[0] == 'P':
            return x
        raise Undecided('key')

    def mkkey(self, p, root, key, base):
        for (f, s, t), k in zip(self.keylay, key):
            p.log.append(('st', root, base + f, s, self.unkey(k)))

    def unkey(self, k):
        if isinstance(k, tuple) and k and k[0] == 'P':
            return k
        n, d = k
        return R(dict(n), dict(d))

    # --- membership
    def member(self, p, cid, key):
        """list of (path, is it in)"""
        c = self.cont(p, cid)
        for k, v in c.facts:
            if k == key:
                return [(p, v)]
        if c.cleared:
            return [(p, False)]
        # a key not yet mentioned may be one already mentioned
        for k, v in c.facts:
            if not self.distinct(p, k, key):
                raise Undecided('two keys of one container')
        q = p.copy()
        self.setc(p, cid, c.but(facts=c.facts + ((key, True),)))
        self.setc(q, cid, c.but(facts=c.facts + ((key, False),)))
        self.start(p, cid, key, True)
        self.start(q, cid, key, False)
        return [(p, True), (q, False)]

    def start(self, p, cid, key, v):
        p.env['#start'] = p.env.get('#start', ()) + ((cid, key, v),)

    def atstart(self, p, cid, key):
        for c, k, v in p.env.get('#start', ()):
            if c == cid and k == key:
                return v
        return None

    def distinct(self, p, k, l):
        if frozenset((k, l)) in p.env.get('#ne', frozenset()):
            return True
        # one known to be in at the start, the other known to be out
        ks = set(v for c, x, v in p.env.get('#start', ()) if x == k)
        ls = set(v for c, x, v in p.env.get('#start', ()) if x == l)
        return bool(ks and ls and not (ks & ls))

    def node(self, p, cid, key):
        c = self.cont(p, cid)
        for k, r in c.nodes:
            if k == key:
                return r
        root = ('node', cid, key, c.epoch)
        self.mkkey(p, root, key, 0)
        self.setc(p, cid, c.but(nodes=c.nodes + ((key, root),)))
        return root

    def insertnew(self, p, cid, key):
        c = self.cont(p, cid)
        root = ('new', cid, c.tick, c.epoch)
        self.mkkey(p, root, key, 0)
        c = c.but(facts=tuple(x for x in c.facts if x[0] != key) + ((key, True),),
                  nodes=tuple(x for x in c.nodes if x[0] != key) + ((key, root),), delta=c.delta + 1, tick=c.tick + 1)
        self.setc(p, cid, c)
        return root

    def remove(self, p, cid, key):
        c = self.cont(p, cid)
        for k, r in c.nodes:
            if k == key:
                p.env['#dead'] = p.env.get('#dead', ()) + (r,)
        c = c.but(facts=tuple(x for x in c.facts if x[0] != key) + ((key, False),), nodes=tuple(x for x in c.nodes if x[0] != key),
                  delta=c.delta - 1)
        self.setc(p, cid, c)

    def initial(self, p, root, off, sz, ty):
        if isinstance(root, tuple) and root and root[0] == 'new':
            return num(0)       # value-initialised
        return Formula.initial(self, p, root, off, sz, ty)

    # --- the library
    def size_of(self, p, cid):
        c = self.cont(p, cid)
        if c.cleared:
            return num(c.delta)
        return var('size', c.epoch) + num(c.delta)

    def ends(self, p, cid, kind):
        """smallest or largest element of a set"""
        c = self.cont(p, cid)
        if c.ins or c.cleared:
            raise Undecided('an end of a changed set')
        if any(e[0] not in (kind, 'val') for e in c.era):
            raise Undecided('an end of a changed set')
        return (kind, cid, c.epoch, len(c.era))

    def libcall(self, p, i, cls, m, a):
        """list of paths, or None if this is not a container operation"""
        S = lambda x, v: x.env.__setitem__(i.id, v)
        if cls in self.MAPS:
            cid = self.ptr(a[0])
            if m in ('count', 'contains'):
                out = []
                for q, v in self.member(p, cid, self.readkey(p, a[1])):
                    S(q, num(1 if v else 0))
                    out.append(q)
                return out
            if m == 'find':
                key = self.readkey(p, a[1])
                out = []
                for q, v in self.member(p, cid, key):
                    S(q, ('P', self.node(q, cid, key), 0) if v else ('P', END, 0))
                    out.append(q)
                return out
            if m in ('operator[]', 'at'):
                key = self.readkey(p, a[1])
                out = []
                for q, v in self.member(p, cid, key):
                    if not v and m == 'at':
                        continue
                    r = self.node(q, cid, key) if v else self.insertnew(q, cid, key)
                    S(q, ('P', r, self.valoff))
                    out.append(q)
                return out
            if m == 'insert':
                key = self.readkey(p, a[1])
                out = []
                for q, v in self.member(p, cid, key):
                    if not v:
                        r = self.insertnew(q, cid, key)
                        s, o = self.ptr(a[1])
                        q.log.append(('cp', r, self.valoff, 64, s, o + self.valoff))
                    S(q, ('A', ()))
                    out.append(q)
                return out
            if m == 'erase':
                it = self.iterarg(p, a[1])
                if it is not None:
                    if it[0] not in ('node', 'new'):
                        raise Undecided('erase')
                    key = self.readkey(p, ('P', it, 0))
                    self.remove(p, cid, key)
                    S(p, ('P', ('next', it), 0))
                    return [p]
                key = self.readkey(p, a[1])
                out = []
                for q, v in self.member(p, cid, key):
                    if v:
                        self.remove(q, cid, key)
                    S(q, num(1 if v else 0))
                    out.append(q)
                return out
            if m in ('begin', 'cbegin'):
                c = self.cont(p, cid)
                root = ('some', cid, c.epoch)
                key = self.readkey(p, ('P', root, 0))
                if all(k != key for k, v in c.facts):
                    self.setc(p, cid, c.but(facts=c.facts + ((key, True),), nodes=c.nodes + ((key, root),)))
                    self.start(p, cid, key, True)
                S(p, ('P', root, 0))
                return [p]
        if cls in self.SETS:
            cid = self.ptr(a[0])
            c = self.cont(p, cid)
            if m in ('begin', 'cbegin'):
                S(p, ('P', self.ends(p, cid, 'min'), 0))
                return [p]
            if m in ('rbegin', 'crbegin'):
                raise Undecided('reverse iterator')
            if m == 'insert':
                t = self.readtup(p, a[1])
                self.setc(p, cid, c.but(ins=c.ins + (t,), delta=c.delta + 1))
                S(p, ('P', ('tup', cid, t), 0))
                return [p]
            if m == 'erase':
                it = self.iterarg(p, a[1])
                if it is not None:
                    if it[0] in ('min', 'max'):
                        t = self.readtup(p, ('P', it, 0))
                        self.setc(p, cid, c.but(era=c.era + ((it[0], t),), delta=c.delta - 1))
                        p.env['#dead'] = p.env.get('#dead', ()) + (it,)
                        S(p, ('P', ('next', it), 0))
                        return [p]
                    raise Undecided('erase')
                t = self.readtup(p, a[1])
                if t in c.ins:
                    l = list(c.ins)
                    l.remove(t)
                    self.setc(p, cid, c.but(ins=tuple(l), delta=c.delta - 1))
                else:
                    r = self.ptr(a[1])[0]
                    kind = r[0] if isinstance(r, tuple) and r[0] in ('min', 'max') else 'val'
                    self.setc(p, cid, c.but(era=c.era + ((kind, t),), delta=c.delta - 1))
                S(p, num(1))
                return [p]
        if cls in self.MAPS + self.SETS + ('std::vector',):
            cid = self.ptr(a[0])
            c = self.cont(p, cid)
            if m in ('end', 'cend'):
                S(p, ('P', END, 0) if cls in self.MAPS else ('P', ('setend', cid), 0))
                return [p]
            if m == 'size':
                S(p, self.size_of(p, cid))
                return [p]
            if m == 'empty':
                S(p, ('cmp', 'eq', self.size_of(p, cid), num(0)))
                return [p]
            if m == 'clear':
                self.setc(p, cid, Cont(c.epoch).but(cleared=True, tick=c.tick))
                return [p]
            if m in ('reserve', 'rehash', 'shrink_to_fit'):
                return [p]
            if m == 'swap':
                self.say(p, 'swap', cid, self.ptr(a[1]))
                return [p]
        if cls == 'std::vector' and m == 'push_back':
            cid = self.ptr(a[0])
            c = self.cont(p, cid)
            self.setc(p, cid, c.but(ins=c.ins + (self.readkey(p, a[1]),), delta=c.delta + 1))
            return [p]
        if cls == 'std::vector' and m in ('operator[]', 'at'):
            cid = self.ptr(a[0])
            self.say(p, 'index', cid, a[1], i)
            S(p, ('P', ('elem', cid, self.scalar(a[1])), 0))
            return [p]
        if re.search(r'_iterator$|_iterator_base$', cls) and m in ('operator->', 'operator*'):
            r = self.load(p, *self.ptr(a[0]), 8, 'ptr')
            S(p, r)
            return [p]
        if re.search(r'_iterator$', cls) and m in ('operator--',):
            r, o = self.ptr(a[0])
            x = self.load(p, r, o, 8, 'ptr')
            if x[1][0] == 'setend' and len(i.ops) == 1:
                p.log.append(('st', r, o, 8, ('P', self.ends(p, x[1][1], 'max'), 0)))
                S(p, a[0])
                return [p]
            raise Undecided('iterator')
        if cls.endswith('_iterator') and m == cls.rsplit('::', 1)[-1] and len(a) == 2:
            r, o = self.ptr(a[0])
            p.log.append(('st', r, o, 8, self.load(p, *self.ptr(a[1]), 8, 'ptr')))
            return [p]
        if m in ('operator!=', 'operator==') and '_iterator' in (i.dem or ''):
            x, y = (self.load(p, *self.ptr(v), 8, 'ptr') for v in a[:2])
            if x == y:
                e = True
            elif 'end' in (x[1][0], y[1][0]) and set((x[1][0], y[1][0])) & {'node', 'new', 'some'}:
                e = False
            else:
                raise Undecided('iterator comparison')
            S(p, num(1 if e == (m == 'operator==') else 0))
            return [p]
        if cls == 'std::basic_string' or cls == 'std::vector' or cls.startswith('std::pair'):
            if m == cls.rsplit('::', 1)[-1] and len(a) >= 2 and ' const&' in (i.dem or ''):
                if cls.startswith('std::pair'):
                    raise Undecided('pair')
                sz = 32 if cls == 'std::basic_string' else 24
                (r, o), (s, q) = self.ptr(a[0]), self.ptr(a[1])
                p.log.append(('st', r, o, sz, self.load(p, s, q, sz, 'obj')))
                return [p]
            if m == 'operator=' and cls != 'std::pair':
                sz = 32 if cls == 'std::basic_string' else 24
                (r, o), (s, q) = self.ptr(a[0]), self.ptr(a[1])
                p.log.append(('st', r, o, sz, self.load(p, s, q, sz, 'obj')))
                S(p, a[0])
                return [p]
            if m == cls.rsplit('::', 1)[-1] and len(a) == 2 and '&&' in (i.dem or '') and not cls.startswith('std::pair'):
                sz = 32 if cls == 'std::basic_string' else 24
                (r, o), (s, q) = self.ptr(a[0]), self.ptr(a[1])
                p.log.append(('st', r, o, sz, self.load(p, s, q, sz, 'obj')))
                return [p]
            if m == cls.rsplit('::', 1)[-1] and len(a) == 1:
                r, o = self.ptr(a[0])
                p.log.append(('st', r, o, 32 if cls == 'std::basic_string' else 24, var('empty', cls)))
                return [p]
            if m.startswith('~'):
                return [p]
        return None

    def iterarg(self, p, v):
        """the element if the argument is an iterator rather than the address of a key"""
        if isinstance(v, tuple) and v[0] == 'P' and isinstance(v[1], tuple) and v[2] == 0 and v[1][0] in ('node', 'new', 'min', 'max', 'some', 'next', 'end', 'setend', 'tup'):
            return v[1]
        return None

    def forkcall(self, p, i):
        n = i.callee or ''
        if not n.startswith('llvm.'):
            a = []
            for o in i.ops:
                try:
                    a.append(self.val(p, o))
                except Undecided:
                    a.append(None)
            cls, m = method(i.dem or n)
            r = self.libcall(p, i, cls, m, a)
            if r is not None:
                return r
        self.docall(p, i)
        return [p]

    def inst(self, p, i):
        if i.iscall:
            return self.forkcall(p, i)
        return Formula.inst(self, p, i)

    def term(self, p, b, t, work, out):
        if t.op == 'invoke':
            for q in self.forkcall(p, t):
                work.append((t.d['normal'], b, q, False))
            return
        return Formula.term(self, p, b, t, work, out)

    # --- epochs
    def newepoch(self, p):
        e = p.env.get('#n', 0) + 1
        p.env['#n'] = p.env['#epoch'] = e
        p.env['#c'] = {}
        p.env['#start'] = ()
        p.env['#ne'] = frozenset()
        p.env['#dead'] = p.env.get('#dead', ())

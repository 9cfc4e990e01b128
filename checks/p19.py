"""Key interning: a bijection between keys and the identifiers 0..size-1."""
from contain import *
from p18 import truthval

RULE = '''Abstract interpretation of every operation of intern over the pair (map from key to id, vector of keys), from an arbitrary state in which they are inverse to each other, forking on whether the key is
present. At every return: a key that was present keeps its id and nothing changes; an absent key is added to both containers or to neither, its id being the number of keys before, and only if asked for;
the result is the key's id, or -1; clear and swap act on both containers; exist_id is evaluated over the order of its argument, 0 and the size.'''
ASSUME = ['standard containers as specified', 'fewer than 2^31 keys']


class Dict(Contain):
    keylay = [(0, 8, 'i64')]
    valoff = 8
    T, L = ('a0', 0), ('a0', 56)

    def call(self, p, i, n, a):
        return False

    def truth(self, p, c):
        t = Contain.truth(self, p, c)
        if t is None and isinstance(c, tuple) and c[0] == 'cmp' and isinstance(c[2], R) and isinstance(c[3], R):
            # the id of a key present lies in 0..size-1
            for s in (1, -1):
                z = (c[2] - c[3]) * num(s)
                r = c[1] if s > 0 else SWAP[c[1]]
                at = [a for a in z.atoms() if isinstance(a, tuple) and a[0] == 'ld' and isinstance(a[1], tuple) and a[1][0] == 'node']
                if len(at) == 1:
                    k = (z - R(patom(at[0]))).const()
                    if k is not None and k > 0:
                        return r in ('ne', 'gt', 'ge')
                    if k == 0 and r in ('ge', 'lt'):
                        return r == 'ge'
                    k = (z - R(patom(at[0])) + var('size', p.env['#epoch'])).const()
                    if k is not None and k <= 0:
                        return r in ('ne', 'lt', 'le')
                    if k == 1 and r in ('le', 'gt'):
                        return r == 'le'
        return t

    def inst(self, p, i):
        if i.op == 'icmp' and i.d['p'][0] == 'u':
            a, b = self.val(p, i.ops[0]), self.val(p, i.ops[1])
            r = rel(i.d['p'])
            if isinstance(a, R) and isinstance(b, R):
                if r in ('gt', 'ge'):
                    a, b, r = b, a, SWAP[r]
                # a < b, unsigned
                neg = lambda x: any(t[0] == 'arg' for t in x.atoms())
                if neg(a) and not neg(b):
                    p.env[i.id] = ('and', ('cmp', 'ge', a, num(0)), ('cmp', r, a, b))
                    return None
                if neg(b) and not neg(a):
                    p.env[i.id] = ('or', ('cmp', 'lt', b, num(0)), ('cmp', r, a, b))
                    return None
                if neg(a) and neg(b):
                    raise Undecided('unsigned comparison')
        return Contain.inst(self, p, i)


def check(ctx):
    prog = ctx.prog('data')
    for f in prog.funcs:
        m = re.search(r'driver_data::i_(\w+)\(', f.dem)
        if not m:
            continue
        name = m.group(1)
        W = next((i.where() for i in f.insts() if 'intern.h' in i.where()), f.file)
        nm = {'nogen': 'key2id_nogen', 'id': 'key2id', 'idgen': 'key2id', 'key': 'id2key', 'haskey': 'exist_key', 'hasid': 'exist_id', 'swapf': 'swap'}.get(name, name)
        ctx.ob('intern::' + nm, W)
        try:
            one(ctx, prog, f, name, lambda msg: ctx.bad('intern-' + name, f, W, 'intern::%s: %s' % (nm, msg)))
        except Undecided as x:
            ctx.count('undecided')
            ctx.samples.append('undecided intern::%s: %s' % (nm, x))


def one(ctx, prog, f, name, bad):
    e = Dict(prog, f)
    p0 = Path()
    e.newepoch(p0)
    n = var('size', 1)
    key = (var('arg', 'a1').key(),)
    paths = [p for p in e.run(0, p0) if p.end == 'ret']
    if not paths:
        raise Undecided('no return')
    ctx.count('paths', len(paths))
    for p in paths:
        T, L = e.cont(p, e.T), e.cont(p, e.L)
        changed = bool(T.delta or L.delta or T.cleared or L.cleared or T.ins or L.ins or L.era)
        sw = [x for x in p.ev if x[0] == 'swap']
        at, now = e.atstart(p, e.T, key), dict(T.facts).get(key)
        if T.cleared != L.cleared:
            bad('one of the two containers is cleared and the other is not')
            continue
        if not T.cleared and T.delta != L.delta:
            bad('a key is added to one of the two containers and not to the other')
            continue
        node = dict(T.nodes).get(key)
        old = var('ld', ('node', e.T, key, 1), 8)
        if name in ('id', 'idgen', 'nogen'):
            if at is None:
                raise Undecided('membership')
            if at:
                if changed:
                    bad('the dictionary is changed although the key is present')
                elif node and not e.load(p, node, 8, 4, 'i32').same(old):
                    bad('the id of a key already present is changed')
                elif not isinstance(p.ret, R) or not p.ret.same(old):
                    bad('the id returned for a key already present is not its id')
                continue
            gen = None
            if name == 'id':
                gen = True
            elif name == 'nogen':
                gen = False
            else:
                for c, v in p.conds:
                    if c[0] == 'bool' and isinstance(c[1], R) and ('arg', 'a2') in c[1].atoms():
                        gen = v
                    elif c[0] == 'cmp' and isinstance(c[2], R) and c[2].same(var('arg', 'a2')) and isinstance(c[3], R) and c[3].const() in (0, 1) and c[1] in ('eq', 'ne'):
                        gen = (v == (c[1] == 'eq')) == (c[3].const() == 1)
                if gen is None:
                    raise Undecided('gen %s' % (p.conds,))
            if not gen:
                if changed:
                    bad('a key is added although none was to be generated')
                elif not isinstance(p.ret, R) or p.ret.const() != -1:
                    bad('the result for an absent key is not -1')
                continue
            if not now or not L.ins:
                bad('a new key is not added')
                continue
            if T.delta != 1:
                bad('a new key is not added exactly once')
                continue
            if not e.load(p, node, 8, 4, 'i32').same(n):
                bad('the id given to a new key is not the number of keys before')
            if not isinstance(p.ret, R) or not p.ret.same(n):
                bad('the id returned for a new key is not the one it was given')
            if L.ins != (key,):
                bad('the key recorded for the new id is another one')
        elif name == 'clear':
            if not T.cleared:
                bad('keys stay')
        elif name in ('swap', 'swapf'):
            got = sorted((x[1], x[2]) if x[1][0] == 'a0' else (x[2], x[1]) for x in sw)
            if got != [(('a0', 0), ('a1', 0)), (('a0', 56), ('a1', 56))]:
                bad('the two containers are not both exchanged with those of the other')
        else:
            if changed:
                bad('the dictionary is changed')
                continue
            if name in ('empty', 'size'):
                if name == 'size':
                    if not isinstance(p.ret, R) or not p.ret.same(n):
                        bad('the result is not the number of keys')
                else:
                    r = e.truth(p, p.ret) if not isinstance(p.ret, tuple) else None
                    want = iszero(e, p, n)
                    got = r if r is not None else (p.ret if isinstance(p.ret, tuple) else None)
                    if isinstance(got, tuple) and got[0] == 'cmp':
                        if not ((got[2] - got[3]).same(n) or (got[3] - got[2]).same(n)) or got[1] not in ('eq', 'le'):
                            if got[1] in ('ne', 'eq', 'lt', 'gt', 'le', 'ge') and n.atom() in (got[2] - got[3]).atoms():
                                bad('the result is not whether there are no keys')
                            else:
                                raise Undecided('empty')
                    elif got is None or want is None:
                        raise Undecided('empty')
                    elif got != want:
                        bad('the result is not whether there are no keys')
            elif name == 'haskey':
                r = truthval(e, p, p.ret)
                if at and r is None and isinstance(p.ret, tuple) and p.ret[0] == 'cmp' and isinstance(p.ret[2], R) and isinstance(p.ret[3], R) and \
                        (p.ret[2] - p.ret[3]).atoms() and set((p.ret[2] - p.ret[3]).atoms()) == {old.atom()} and not any(old.atom() in x.atoms() for c, v in p.conds for x in c[1:] if isinstance(x, R)):
                    bad('the answer for a key that is present depends on its id')
                    continue
                if at is None or r is None:
                    raise Undecided('exist_key')
                if r != at:
                    bad('the answer is wrong for a key that is %s' % ('present' if at else 'absent'))
            elif name == 'key':
                x = [v for v in p.ev if v[0] == 'index']
                if len(x) != 1:
                    raise Undecided('id2key')
                if x[0][1] != e.L or not x[0][2].same(var('arg', 'a1')) or p.ret != ('P', ('elem', e.L, var('arg', 'a1').key()), 0):
                    bad('the key returned is not the one at the position of the id')
            elif name == 'hasid':
                hasid(e, p, n, bad)


def iszero(e, p, n):
    for c, v in p.conds:
        if c[0] == 'cmp' and isinstance(c[2], R) and (c[2] - c[3]).same(n) and c[1] in ('eq', 'ne'):
            return v == (c[1] == 'eq')
    return None


def hasid(e, p, n, bad):
    """evaluate for the representatives of every order of id, 0 and n"""
    for N in (0, 1, 2, 5):
        for x in range(-2, N + 3):
            def ev(c):
                if isinstance(c, R):
                    t = R(dict(c.n), dict(c.d))
                    s = Fraction(0)
                    for m, k in t.n.items():
                        for a, q in m:
                            if a == n.atom():
                                k = k * N ** q
                            elif a == ('arg', 'a1'):
                                k = k * Fraction(x) ** q
                            else:
                                raise Undecided('exist_id')
                        s += k
                    return s
                if c[0] == 'cmp':
                    a, b = ev(c[2]), ev(c[3])
                    return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[c[1]]
                if c[0] == 'not':
                    return not ev(c[1])
                if c[0] == 'and':
                    return bool(ev(c[1])) and bool(ev(c[2]))
                if c[0] == 'or':
                    return bool(ev(c[1])) or bool(ev(c[2]))
                if c[0] == 'bool':
                    return bool(ev(c[1]))
                raise Undecided('exist_id')
            if all(bool(ev(c)) == v for c, v in p.conds):
                r = bool(ev(p.ret))
                if r != (0 <= x < N):
                    bad('the answer for id %d of a dictionary of %d keys is %s' % (x, N, str(r).lower()))
                    return

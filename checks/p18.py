"""Least-recently-used caches: lru and the caching DNS resolver."""
from contain import *

RULE = '''Abstract interpretation of every operation over the pair (map, set of (stamp, key)), from an arbitrary state in which they agree, forking on whether the key is present and cutting at loop
heads and lock acquisitions. At every return, loop head and lock release: the keys the operation touched have exactly one tuple in the set, that of the stamp in their map entry, or none if they are not
in the map; entries other than the operation's own key are only dropped if theirs is the set's first tuple; an entry is only added when the path's conditions leave room for it; no element is read after it was erased.
Per operation: a hit gets a fresh stamp, has() and failing get() change nothing, set() stores the value given, remove() and clear() forget the key(s), a cached DNS answer is returned only for the
host and port asked for, under a condition that its resolution is less than expire_second ago.'''
ASSUME = ['fewer than 2^31 entries', 'standard containers as specified', 'the cache size is positive (as documented)', 'stamps do not wrap around']


class Cache(Contain):
    """map C and set A of one object, in agreement at the start of each epoch"""
    lib = ()

    def __init__(self, prog, f, obj, coff, aoff, cuts=()):
        Contain.__init__(self, prog, f, cuts)
        self.C, self.A = (obj, coff), (obj, aoff)
        self.obj = obj
        self.syncs = 0
        self.problems = []

    stampoff = 16               # of the stamp in a map element

    def stamp0(self, p, key):
        """the stamp of a key present at the start of the epoch"""
        return self.scalar(var('ld', ('node', self.C, key, p.env.get('#epoch', 0)), self.stampoff))

    def ends(self, p, cid, kind):
        root = Contain.ends(self, p, cid, kind)
        if cid == self.A:
            # it stands for an entry of the map
            c = self.cont(p, cid)
            key = tuple(self.scalar(Formula.load(self, p, root, self.tupkey + f, s, t)) for f, s, t in self.keylay)
            ne = p.env.get('#ne', frozenset())
            for k, t in c.era:
                ne |= {frozenset((key, t[1]))}
            p.env['#ne'] = ne
            if self.atstart(p, self.C, key) is None:
                self.start(p, self.C, key, True)
                m = self.cont(p, self.C)
                bad = [k for k, v in m.facts if k != key and not self.distinct(p, k, key) and v is False]
                if not any(k == key for k, v in m.facts):
                    if bad:
                        raise Undecided('an end of a changed set')
                    self.setc(p, self.C, m.but(facts=m.facts + ((key, True),)))
                # its tuple carries its stamp
                p.log.append(('st', root, 0, 8, self.unkey(self.stamp0(p, key))))
        return root

    def sync(self, p, what, own, i):
        """C and A agree; report what disagrees"""
        self.syncs += 1
        C, A = self.cont(p, self.C), self.cont(p, self.A)
        keys = []
        for k in [k for k, v in C.facts] + [t[1] for t in A.ins] + [e[1][1] for e in A.era]:
            if k not in keys:
                keys.append(k)
        if C.cleared != A.cleared:
            self.problems.append((i, 'one of the two containers is cleared and the other is not'))
            return
        for k in keys:
            start = self.atstart(p, self.C, k)
            now = dict(C.facts).get(k)
            if start is None and not C.cleared:
                raise Undecided('membership')
            tup = []
            if start and not A.cleared:
                tup.append(self.stamp0(p, k))
            for kind, t in A.era:
                if t[1] == k:
                    s = t[0][0]
                    if s in tup:
                        tup.remove(s)
            tup += [t[0][0] for t in A.ins if t[1] == k]
            if now:
                r = dict(C.nodes).get(k)
                s = self.scalar(Formula.load(self, p, r, self.stampoff, 8, 'i64')) if r else self.stamp0(p, k)
                if tup != [s]:
                    self.problems.append((i, '%s: an entry stays in the map %s' % (what, 'without a tuple of its stamp in the set' if s not in tup else 'and has more than one tuple in the set')))
            elif tup:
                self.problems.append((i, '%s: an entry is gone from the map but its tuple stays in the set' % what))
            if start and not now and k != own and own is not False and not C.cleared:
                if not any(kind == 'min' and t[1] == k for kind, t in A.era):
                    self.problems.append((i, '%s: an entry other than the least recently used one is dropped' % what))
        for e in p.ev:
            if e[0] == 'dead':
                self.problems.append((i, '%s: an element is read after it was erased' % what))

    def full(self, p, mx):
        """do the conditions leave room for the entries added in this epoch?"""
        C = self.cont(p, self.C)
        if C.cleared or C.delta <= 0:
            return None
        n = var('size', C.epoch)
        # n + lo <= max  known
        best = 0
        ne = False
        for c, v in p.conds:
            if c[0] != 'cmp' or not isinstance(c[2], R) or not isinstance(c[3], R):
                continue
            rel_ = c[1] if v else NEG[c[1]]
            for s in (1, -1):
                k = ((c[2] - c[3]) * num(s) - (n - mx)).const()
                if k is None:
                    continue
                k = int(k)
                r = rel_ if s > 0 else SWAP[rel_]
                # n - max + k r 0
                if r == 'lt':
                    best = max(best, k + 1)
                elif r in ('le', 'eq'):
                    best = max(best, k)
                elif r == 'ne' and k == 0:
                    ne = True
                break
        if ne:
            best = max(best, 1)
        return C.delta <= best


def loopcut(e, f):
    heads = f.loops()
    return set(heads) if not isinstance(heads, dict) else set(heads.keys())


def bodyroots(e, f, head):
    """memory roots stored to anywhere in the function's loops: their contents are forgotten at the head"""
    return set(i.ops[1] for i in f.insts() if i.op == 'store')


def explore(e, f, own, where, mid=None):
    """all paths of f; loops are cut at their heads. Returns final paths."""
    heads = loopcut(e, f)
    e.cuts = set(heads)
    out = []
    p = Path()
    e.newepoch(p)
    work = [(0, p)]
    while work:
        b, p = work.pop()
        for q in e.run(b, p):
            if isinstance(q.end, tuple) and q.end[0] == 'cut':
                h = q.end[1]
                k = own(q) if callable(own) else own
                e.sync(q, 'at the loop', k, f.blocks[h][-1])
                outk = tuple(sorted((x for x, v in e.cont(q, e.C).facts if v is False and k is not False and x == k), key=repr))
                if h in q.env.get('#cut', {}):
                    # back at the head: what was assumed there still holds
                    if not set(q.env['#cut'][h]) <= set(outk):
                        raise Undecided('loop')
                    continue
                # continue with an arbitrary later state
                n = q.copy()
                n.env['#held'] = q.env.get('#held')
                ev = n.ev
                e.newepoch(n)
                n.ev = [x for x in ev if x[0] not in ('store',)]
                for x in outk:
                    c = e.cont(n, e.C)
                    e.setc(n, e.C, c.but(facts=c.facts + ((x, False),)))
                    e.start(n, e.C, x, False)
                for ph, v in q.phis.items():
                    n.env[ph] = v if isinstance(v, tuple) and v[0] == 'P' else var('phi', ph)
                n.env['#cut'] = dict(q.env.get('#cut', {}), **{})
                n.env['#cut'][h] = outk
                work.append((h, n))
            else:
                out.append(q)
    return out


class Lru(Cache):
    keylay = [(0, 4, 'i32')]
    tuplay = [(0, 8, 'i64')]
    tupkey = 8
    valoff = 8
    stampoff = 16

    def call(self, p, i, n, a):
        if n == '__cxa_allocate_exception':
            p.env[i.id] = ('P', 'exception', 0)
            return True
        if n == '__cxa_throw':
            self.throws.append(p)
            return True
        return n == '__assert_fail' or bool(re.search(r'^std::(\w+)_error::', i.dem or ''))


def fresh(e, p, f, ctx, name, own, CUR=8):
    """stamps given out are new, and never given out again"""
    A = e.cont(p, e.A)
    end = Formula.load(e, p, 'a0', CUR, 8, 'i64')
    c0 = var('ld', 'a0', CUR)
    if A.cleared:
        return None
    d = (end - c0).const()
    if d is None:
        return 'undecided'
    if d < 0:
        return 'the counter of stamps goes back'
    for t in A.ins:
        s = e.unkey(t[0][0])
        k = (s - c0).const()
        if k is None:
            return 'an entry is given a stamp that does not come from the counter'
        if k < 0:
            return 'an entry is given a stamp that has been given out before'
        if k >= d:
            return 'an entry is given a stamp that will be given out again'
    return None


def lru(ctx, prog):
    W = lambda f: next((i.where() for i in f.insts() if 'lru.h' in i.where()), f.file)
    for f in prog.funcs:
        m = re.search(r'driver_data::c_(\w+)\(', f.dem)
        if not m:
            continue
        name = m.group(1)
        if name == 'make':
            make(ctx, f, prog, W)
            continue
        ctx.ob('lru::%s' % name, W(f))
        e = Lru(prog, f, 'a0', 16, 64)
        e.throws = []
        key = (var('arg', 'a1').key(),)
        own = key if name != 'clear' else False
        bad = lambda msg, i=None: ctx.bad('lru-' + name, f, i.where() if i is not None and i.where() else W(f), 'lru::%s: %s' % (name, msg))
        try:
            paths = explore(e, f, own, W)
            for p in paths:
                if p.end != 'ret':
                    continue
                e.sync(p, 'on return', own, f.blocks[0][-1])
            for p in e.throws:
                C, A = e.cont(p, e.C), e.cont(p, e.A)
                if C.delta or C.cleared or A.ins or A.era or A.cleared:
                    e.problems.append((None, 'the cache is changed although the call fails'))
                if name == 'get' and e.atstart(p, e.C, key):
                    e.problems.append((None, 'the call fails although the key is present'))
            for i, msg in e.problems:
                bad(msg)
            if e.problems:
                continue
            rets = 0
            for p in paths:
                if p.end != 'ret':
                    continue
                rets += 1
                C, A = e.cont(p, e.C), e.cont(p, e.A)
                x = fresh(e, p, f, ctx, name, own)
                if x == 'undecided':
                    raise Undecided('stamps')
                if x:
                    bad(x)
                    continue
                r = e.full(p, var('ld', 'a0', 0))
                if r is False:
                    bad('an entry is added although the cache may be full')
                changed = bool(C.delta or A.ins or A.era or C.cleared or A.cleared)
                at, now = e.atstart(p, e.C, key), dict(C.facts).get(key)
                new = any(t[1] == key for t in A.ins)
                if name == 'has':
                    if changed:
                        bad('the cache is changed')
                    if at is None or not isinstance(truthval(e, p, p.ret), bool):
                        raise Undecided('result')
                    if truthval(e, p, p.ret) != at:
                        bad('the answer is wrong for a key that is %s' % ('present' if at else 'absent'))
                elif name == 'get':
                    if not at:
                        bad('a value is returned for a key that is not in the cache')
                        continue
                    if not now:
                        bad('the entry that was asked for is dropped')
                        continue
                    v = Formula.load(e, p, dict(C.nodes)[key], 8, 8, 'i64')
                    if not v.same(var('ld', ('node', e.C, key, p.env['#epoch']), 8)):
                        bad('the stored value is changed')
                    if not isinstance(p.ret, R) or not p.ret.same(v):
                        bad('the value returned is not the one stored under the key')
                    if not new:
                        bad('the entry found is not marked as used')
                elif name == 'touch':
                    if at and (not now or not new):
                        bad('the entry is not marked as used')
                    if at is False and (now or changed):
                        bad('the cache is changed although the key is absent')
                elif name in ('set', 'index'):
                    if at is None:
                        raise Undecided('membership')
                    if not now:
                        bad('the key is not in the cache afterwards')
                        continue
                    node = dict(C.nodes).get(key)
                    old = var('ld', ('node', e.C, key, p.env['#epoch']), 8)
                    v = Formula.load(e, p, node, 8, 8, 'i64') if node else old
                    if at:
                        if not v.same(old):
                            bad('the value of a key already present is changed')
                        if name == 'index' and not new:
                            bad('the entry found is not marked as used')
                    elif not v.same(var('arg', 'a2') if name == 'set' else num(0)):
                        bad('the value stored is not the one given')
                    if name == 'index':
                        if not (isinstance(p.ret, tuple) and p.ret == ('P', node, 8)):
                            bad('the reference returned is not to the value stored under the key')
                elif name == 'remove':
                    if now is not False:
                        bad('the entry stays')
                elif name == 'clear':
                    if not C.cleared:
                        bad('entries stay')
            if name != 'get' and not rets:
                raise Undecided('no return')
            ctx.count('paths', len(paths))
        except Undecided as x:
            ctx.count('undecided')
            ctx.samples.append('undecided lru::%s: %s' % (name, x))


def truthval(e, p, v):
    if isinstance(v, R):
        k = v.const()
        return None if k is None else bool(k)
    return e.truth(p, v)


def make(ctx, f, prog, W):
    ctx.ob('lru::lru', W(f))
    e = Lru(prog, f, 'x', 16, 64)

    def call(p, i, n, a):
        if n in ('operator new(unsigned long)', '_Znwm') or 'operator new' in (i.dem or ''):
            p.env[i.id] = ('P', 'obj', 0)
            return True
        c, m = method(i.dem or n)
        return c in e.MAPS + e.SETS
    e.call = call
    try:
        for p in e.run(0):
            if p.end != 'ret':
                continue
            m = Formula.load(e, p, 'obj', 0, 4, 'i32')
            if not m.same(var('arg', 'a1')):
                ctx.bad('lru-make', f, W(f), 'lru::lru: the capacity is not the size given')
            if Formula.load(e, p, 'obj', 8, 8, 'i64').const() is None:
                ctx.bad('lru-make', f, W(f), 'lru::lru: the counter of stamps starts from no definite value')
    except Undecided as x:
        ctx.count('undecided')
        ctx.samples.append('undecided lru::lru: %s' % x)


# ------------------------------------------------------------------ DNS cache

class Dns(Cache):
    keylay = [(0, 32, 'obj'), (32, 2, 'i16')]
    tuplay = [(0, 8, 'i64')]
    tupkey = 8
    valoff = 40
    stampoff = 72       # 40 + 32
    own = None

    def call(self, p, i, n, a):
        d = i.dem or ''
        if n == 'time':
            k = sum(1 for e in p.ev if e[0] == 'time')
            p.ev.append(('time', k))
            p.env[i.id] = var('time', k)
            return True
        if re.search(r'scoped_lock::scoped_lock\(', d):
            self.newepoch(p)
            p.env['#held'] = True
            p.ev.append(('lock', i))
            return True
        if re.search(r'scoped_lock::bool_test\(', d):
            p.env[i.id] = ('cmp', 'ne', var('locked', p.env['#epoch']), num(0))
            return True
        if re.search(r'scoped_lock::~scoped_lock\(', d):
            self.release(p, i)
            p.env['#held'] = None
            return True
        if re.search(r'normal_dns_resolver::resolve\(', d):
            p.ev.append(('resolve', i, self.load(p, *self.ptr(a[2]), 32, 'obj').key(), a[3].key() if isinstance(a[3], R) else None, bool(p.env.get('#held'))))
            p.log.append(('st',) + self.ptr(a[0]) + (24, var('resolved', sum(1 for e in p.ev if e[0] == 'resolve'))))
            return True
        return False

    def release(self, p, i):
        own = self.own
        self.sync(p, 'when the lock is released', own, i)
        r = self.full(p, var('ld', 'a1', 0))
        if r is False:
            self.problems.append((i, 'an entry is added although the cache may be full'))
        C, A = self.cont(p, self.C), self.cont(p, self.A)
        for t in A.ins:
            s = self.unkey(t[0][0]).atom()
            if not s or s[0] != 'time':
                self.problems.append((i, 'an entry is given an access time that is not the present'))
        k = dict(C.facts).get(own)
        if k:
            node = dict(C.nodes).get(own)
            p.ev.append(('left', i, self.atstart(p, self.C, own), node[0] if node else None,
                         tuple((o, Formula.load(self, p, node, o, s, t)) for o, s, t in ((40, 24, 'obj'), (64, 8, 'i64'), (72, 8, 'i64'))) if node else None,
                         any(t[1] == own for t in A.ins)))


def dns(ctx, prog):
    for f in prog.funcs:
        m = re.search(r'cached_dns_resolver::impl::(resolve|delete_cache|clear_cache|impl)\(', f.dem)
        if not m:
            continue
        name = m.group(1)
        W = next((i.where() for i in f.insts() if 'dns.cpp' in i.where()), f.file)
        ctx.ob('cached_dns_resolver::%s' % name, W)
        bad = lambda msg, i=None: ctx.bad('dns-' + name, f, i.where() if i is not None and i.where() else W, 'cached_dns_resolver::%s: %s' % (name, msg))
        this = 'a1' if name == 'resolve' else 'a0'
        h, po = ('a2', 'a3') if name == 'resolve' else ('a1', 'a2')
        e = Dns(prog, f, this, 8, 56)
        try:
            if name == 'impl':
                e.call = lambda p, i, n, a: not re.match(r'^(llvm|operator|time|__cxa)', n)
                for p in e.run(0):
                    if p.end != 'ret':
                        continue
                    for o, v, w in ((0, 'a1', 'capacity'), (4, 'a2', 'time until entries expire')):
                        if not Formula.load(e, p, 'a0', o, 4, 'i32').same(var('arg', v)):
                            bad('the %s is not the one given' % w)
                continue
            key = (var('ld', h, 0).key(), var('arg', po).key())
            e.own = False if name == 'clear_cache' else key
            paths = explore(e, f, e.own, None)
            for i, msg in e.problems:
                bad(msg, i)
            if e.problems:
                continue
            ctx.count('paths', len(paths))
            for p in paths:
                if p.end != 'ret':
                    continue
                locked = [c for c, v in p.conds if c[0] == 'cmp' and isinstance(c[2], R) and c[2].atom() and c[2].atom()[0] == 'locked']
                if any(not v for c, v in p.conds if c in locked):
                    continue
                C = e.cont(p, e.C)
                if name == 'clear_cache':
                    if not C.cleared:
                        bad('entries stay')
                elif name == 'delete_cache':
                    if dict(C.facts).get(key) is not False:
                        bad('the entry stays')
                else:
                    resolve_rules(e, p, key, this, bad)
        except Undecided as x:
            ctx.count('undecided')
            ctx.samples.append('undecided dns %s: %s' % (name, x))


def resolve_rules(e, p, key, this, bad):
    ret = Formula.load(e, p, 'a0', 0, 24, 'obj')
    res = [x for x in p.ev if x[0] == 'resolve']
    left = [x for x in p.ev if x[0] == 'left']
    for x in res:
        if (x[2], x[3]) != key:
            bad('another host or port than the one asked for is resolved', x[1])
    a = ret.atom() if isinstance(ret, R) else None
    T = [var('time', k[1]) for k in p.ev if k[0] == 'time']
    if a and a[0] == 'ld' and isinstance(a[1], tuple) and a[1][0] == 'node' and a[2] == 40:
        if a[1][2] != key:
            bad('the answer cached for another host or port is returned')
            return
        node = a[1]
        ok = False
        for c, v in p.conds:
            if c[0] != 'cmp' or not isinstance(c[2], R) or not isinstance(c[3], R):
                continue
            for t in T:
                for s in (1, -1):
                    z = (c[2] - c[3]) * num(s) - (t - var('ld', node, 64) - var('ld', this, 4))
                    k = z.const()
                    if k is None:
                        continue
                    r = c[1] if v else NEG[c[1]]
                    r = r if s > 0 else SWAP[r]
                    if r == 'lt' and k >= 0 or r == 'le' and k >= 1:
                        ok = True
        if not ok:
            bad('a cached answer is returned without its resolution being known to be less than expire_second ago')
        for x in left:
            if x[2] and x[4] and not dict(x[4])[64].same(var('ld', node, 64)):
                bad('a hit changes the time at which the entry counts as resolved', x[1])
            if x[2] and not x[5]:
                bad('the entry found is not marked as used', x[1])
    elif a and a[0] == 'resolved':
        for x in left:
            if x[3] == 'new':
                d = dict(x[4])
                if not d[40].same(ret):
                    bad('the answer registered is not the one resolved', x[1])
                if not any(d[64].same(t) for t in T):
                    bad('the time of resolution registered is not the present', x[1])
    else:
        raise Undecided('what is returned')


def check(ctx):
    prog = ctx.prog('data')
    lru(ctx, prog)
    dns(ctx, prog)


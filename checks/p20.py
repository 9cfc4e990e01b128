"""Typed access: a value of dynamic type is read only as the type it has."""
import os
from formula import *

RULE = ('class-hierarchy evaluation: every path of each accessor is evaluated for each dynamic class the value can have (and for null where the '
        'interface allows it); dynamic_cast is decided from the class hierarchy, virtual calls from the vtables, and no path is sampled. '
        'On each path the result must be the data member of that class (or the container operation applied to it), or the documented '
        'exception or default; a load, store or call through a failed cast or null is a violation wherever it occurs. equals and the '
        'optional comparisons are compared with their truth tables as normal forms over the stored values')
ASSUME = ['a json never holds a null pointer (its constructors are given a value); library calls (string and container operations) are '
          'taken at their documented meaning; a function whose shape the evaluator does not model is counted as undecided, not as correct']

J = 'pfi::text::json::json_'
D = 'pfi::database::sql_'
JS = ['null', 'integer', 'float', 'bool', 'string', 'array', 'object']
DB = ['bool', 'string', 'int32', 'int64', 'float', 'timestamp', 'unknown']
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'


class NullUse(Exception):
    def __init__(self, i, what):
        self.i, self.what = i, what


def tiname(prog, g):
    if isinstance(g, tuple) and g[0] == 'P' and isinstance(g[1], str) and g[1].startswith('g:'):
        d = prog.globals.get(g[1][2:], {}).get('dem', '')
        if d.startswith('typeinfo for '):
            return d[13:]
    return None


class Typed(Formula):
    BUDGET = 4000
    MAXPATHS = 400

    def __init__(self, prog, f, dyn, args=None, cuts=()):
        Formula.__init__(self, prog, f, cuts)
        self.dyn = dyn          # root -> class name or None (null)
        self.args = args or {}
        self.pure = False

    def val(self, p, v):
        if v in self.args and v not in p.env:
            return self.args[v]
        if isinstance(v, str) and v not in p.env:
            if v == 'zero':
                return ('A', (((0,), num(0)), ((1,), num(0))))
            if v.startswith('k:{ i64 ptrtoint'):
                return ('A', (((0,), num(1)), ((1,), num(0))))
            if v.startswith('k:') or v.startswith('md'):
                return ('C', v)
            m = re.match(r'^ce:(-?\d+):(g:.*)$', v)
            if m:
                return ('P', m.group(2), int(m.group(1)))
        return Formula.val(self, p, v)

    def load(self, p, root, off, sz, ty, upto=None):
        if root == 'null':
            raise NullUse(self.at, 'reads through')
        v = Formula.load(self, p, root, off, sz, ty, upto)
        if isinstance(v, tuple) and v[0] == 'P' and self.dyn.get(v[1], 1) is None:
            return ('P', 'null', v[2])
        return v

    def store(self, p, v, x, sz):
        if isinstance(v, tuple) and v[:2] == ('P', 'null'):
            raise NullUse(self.at, 'writes through')
        Formula.store(self, p, v, x, sz)

    def nonnull(self, p, v):
        if not (isinstance(v, tuple) and v and v[0] == 'P'):
            return None
        if v[1] == 'null':
            return False if v[2] == 0 else None
        if v[1] in self.dyn:
            return True
        if isinstance(v[1], str):
            return True
        if v[1][0] in ('new', 'elem'):
            return True
        return None

    def truth(self, p, c):
        if isinstance(c, tuple) and c[0] == 'cmp' and any(isinstance(x, tuple) and x[0] in ('cmp', 'not', 'and', 'or') for x in c[2:]):
            t = [self.truth(p, x) for x in c[2:]]
            if None in t or c[1] not in ('eq', 'ne'):
                raise Undecided('comparison of conditions')
            return (t[0] == t[1]) == (c[1] == 'eq')
        if isinstance(c, tuple) and c[0] == 'cmp' and c[1] in ('eq', 'ne') and not isinstance(c[2], R):
            x, y = c[2], c[3]
            if x == y:
                return c[1] == 'eq'
            nx, ny = self.nonnull(p, x), self.nonnull(p, y)
            if (nx is False and ny) or (ny is False and nx):
                return c[1] == 'ne'
            if nx is False and ny is False:
                return c[1] == 'eq'
            return None
        if isinstance(c, R) and c.const() is None:
            for q, v in p.conds:
                if q[0] == 'bool' and q[1].same(c):
                    return v
        return Formula.truth(self, p, c)

    def inst(self, p, i):
        self.at = i
        if p.end is not None:
            return
        self.cur = p
        if i.op == 'xor' and i.ty == 'i1' and i.ops[1] in ('c:1', 'c:-1'):
            p.env[i.id] = ('not', self.val(p, i.ops[0]))
            return
        if i.op == 'icmp':
            a, b = self.val(p, i.ops[0]), self.val(p, i.ops[1])
            # (condition as int) compared with 0
            if isinstance(a, tuple) and a[0] in ('cmp', 'not', 'and', 'or') and isinstance(b, R) and b.const() in (0, 1) and rel(i.d['p']) in ('eq', 'ne'):
                pos = (rel(i.d['p']) == 'eq') == (b.const() == 1)
                p.env[i.id] = a if pos else ('not', a)
                return
            if isinstance(a, tuple) and a[0] == 'P' and isinstance(b, tuple) and b[0] == 'P' and a[1] == b[1] and 'null' == a[1]:
                p.env[i.id] = num(int((a[2] == b[2]) == (i.d['p'] == 'eq')))
                return
        return Formula.inst(self, p, i)

    def cast(self, p, i, op, a):
        if isinstance(a, R) and a.const() is None:
            if op in ('sitofp', 'uitofp', 'fptrunc') and i.ty == 'float':
                return self.tag('tofloat', a)
            if op == 'trunc' and i.ty in ('i1', 'i8') and i.d.get('st') in ('i8', 'i1'):
                return a
        if isinstance(a, R) and a.const() is not None and op == 'trunc':
            w = int(i.ty[1:])
            k = int(a.const()) & ((1 << w) - 1)
            return num(k - (1 << w) if w > 1 and k >> (w - 1) else k)
        if isinstance(a, tuple) and a[0] == 'P' and op in ('ptrtoint', 'inttoptr'):
            return a
        return Formula.cast(self, p, i, op, a)

    def tag(self, op, a):
        r = var(op, a.key())
        self.remember(r, op, a, None)
        return r

    def call(self, p, i, n, a):
        prog = self.prog
        for x in a:
            if isinstance(x, tuple) and x[:2] == ('P', 'null') and n != '__dynamic_cast' and i.op in ('call', 'invoke'):
                if x[2] != 0 or (x is a[0] and self.member(i)):
                    raise NullUse(i, 'calls %s through' % (i.dem or n or 'a function')[:60])
        if n == '__dynamic_cast':
            src = a[0]
            dst = tiname(prog, a[2])
            if not isinstance(src, tuple) or src[0] != 'P' or dst is None:
                raise Undecided('dynamic_cast')
            if src[1] == 'null':
                p.env[i.id] = ('P', 'null', 0)
            elif src[1] in self.dyn and src[2] == 0:
                c = self.dyn[src[1]]
                p.env[i.id] = src if (c == dst or prog.derives(c, dst)) else ('P', 'null', 0)
            else:
                raise Undecided('dynamic_cast of an unknown value')
            return True
        if n in ('__cxa_throw', '__cxa_rethrow', '__cxa_bad_cast', '__cxa_bad_typeid'):
            p.end = ('throw', tiname(prog, a[1]) if n == '__cxa_throw' else {'__cxa_bad_cast': 'std::bad_cast', '__cxa_bad_typeid': 'std::bad_typeid'}.get(n), i)
            return True
        if n == '__cxa_allocate_exception' or (i.dem or '').startswith('operator new('):
            p.env[i.id] = ('P', ('new', i.id), 0)
            return True
        if not n and 'cv' in i.d:
            return self.virtual(p, i, a)
        m = re.search(r'std::numeric_limits<(\w[\w ]*)>::(min|max|lowest)\(\)$', i.dem or '')
        if m:
            w = {'int': 31, 'long': 63, 'long long': 63, 'short': 15, 'unsigned int': 32, 'unsigned long': 64}.get(m.group(1))
            if w is None:
                raise Undecided('numeric_limits')
            u = m.group(1).startswith('unsigned')
            p.env[i.id] = num((1 << w) - 1) if m.group(2) == 'max' else num(0 if u else -(1 << w))
            return True
        g = prog.by_dem.get(i.dem) if i.dem else None
        if g is not None:
            t = self.throws(g)
            if t is not None:
                p.end = ('throw', t, i)
                return True
        p.ev.append(('call', i, a))
        d = (i.dem or '').replace(STR, 'S')
        if a and isinstance(a[0], tuple) and a[0][0] == 'P' and a[0][1] in self.dyn and self.pure:
            if re.search(r'^std::(vector|unordered_map|map)<.*>::size\(\) const$', d):
                p.env[i.id] = var('size', a[0][1], a[0][2])
                return True
            if re.search(r'^std::vector<.*>::(operator\[\]|at)\(unsigned long\)', d) and isinstance(a[1], R):
                p.env[i.id] = ('P', ('elem', a[0][1], a[1].key()), 0)
                return True
        for x in a:
            # what the call was given may have been written (the value under test is only read by const operations)
            if isinstance(x, tuple) and x and x[0] == 'P' and isinstance(x[1], str) and x[1] not in ('null',) and not re.match(r'^a\d+$', x[1]) and not x[1].startswith('g:'):
                p.log.append(('any', x[1], len(p.ev)))
        if i.ty == 'ptr':
            p.env[i.id] = ('P', ('res', i.id), 0)
        elif i.ty not in (None, 'void'):
            p.env[i.id] = var('res', i.id)
        return True

    def member(self, i):
        d = i.dem or ''
        return '::' in d.split('(')[0] and not d.startswith('operator') and 'std::' in d and ('basic_string' in d or 'vector' in d or 'unordered_map' in d)

    def throws(self, g):
        """exception type of a function that always throws"""
        if any(x.op == 'ret' for x in g.insts()):
            return None
        ts = set(tiname(self.prog, ('P', x.ops[1], 0)) for x in g.insts() if x.iscall and x.callee == '__cxa_throw')
        return ts.pop() if len(ts) == 1 else None

    def virtual(self, p, i, a):
        cv = self.val(p, i.d['cv'])
        # slot = load(load(root, 0), off)
        if not (isinstance(cv, tuple) and cv[0] == 'P' and isinstance(cv[1], tuple) and cv[1][0] == '*'):
            raise Undecided('call through a pointer')
        vt, off = cv[1][1], cv[1][2]
        if not (isinstance(vt, tuple) and vt[0] == '*' and vt[2] == 0):
            raise Undecided('call through a pointer')
        c = self.dyn.get(vt[1])
        if c is None:
            raise Undecided('virtual call')
        agg = None
        for nme, gv in self.prog.globals.items():
            if gv.get('dem') == 'vtable for ' + c and gv.get('agg'):
                agg = gv['agg'][0]
        if agg is None or 2 + off // 8 >= len(agg):
            raise Undecided('vtable of %s' % c)
        e = agg[2 + off // 8]
        g = self.prog.by_name.get(e[2:] if isinstance(e, str) else '')
        if g is None:
            raise Undecided('virtual function')
        rs = []
        for q in Typed(self.prog, g, {'a0': c}).run():
            if q.end != 'ret':
                raise Undecided('virtual function %s' % g.dem)
            rs.append(q.ret)
        r = rs[0]
        if len(rs) != 1 or not (r is None or (isinstance(r, R) and r.const() is not None) or (isinstance(r, tuple) and r[0] == 'P' and isinstance(r[1], str) and r[1].startswith('g:'))):
            raise Undecided('virtual function %s' % g.dem)
        p.env[i.id] = r
        return True

    def term(self, p, b, t, work, out):
        self.at = t
        self.cur = p
        if p.end is None and t.op == 'invoke':
            self.docall(p, t)
            if p.end is None:
                work.append((t.d['normal'], b, p, False))
                return
        if p.end is not None:
            h = t.d.get('unwind') if t.op == 'invoke' else None
            if h is not None and any(x.op == 'landingpad' and x.d.get('clauses') for x in self.f.blocks[h]):
                raise Undecided('exception caught here')
            out.append(p)
            return
        Formula.term(self, p, b, t, work, out)

    def docall(self, p, i):
        self.at = i
        if p.end is not None:
            return
        return Formula.docall(self, p, i)


def unwrap(T, r, ok):
    while isinstance(r, R):
        a = r.atom()
        d = T.defs.get(a) if a is not None else None
        if d is None or d[0] not in ok:
            return r
        r = d[1]
    return r


def isld(r, root, off):
    return isinstance(r, R) and r.atom() == ('ld', root, off)


def boolval(T, r):
    """the boolean a returned value stands for: (positive?, atom or cmp)"""
    pos = True
    while isinstance(r, tuple) and r[0] == 'not':
        pos, r = not pos, r[1]
    if isinstance(r, tuple) and r[0] == 'cmp' and isinstance(r[2], R) and isinstance(r[3], R) and r[3].const() == 0 and r[1] in ('ne', 'eq') and r[2].atom():
        return pos == (r[1] == 'ne'), r[2]
    return pos, r


def opaque(p):
    """does the path depend on what a library call returned?"""
    def has(x):
        if isinstance(x, R):
            return any(has(a) for a in x.atoms())
        if isinstance(x, tuple):
            return (len(x) > 0 and x[0] in ('res', 'mem')) or any(has(y) for y in x)
        return False
    return any(has(q) for q, v in p.conds)


class Check:
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        self.off = {}

    def fn(self, name):
        fs = [f for f in self.prog.funcs if re.match(r"(.* )?driver_typed::%s(\[abi:cxx11\])?\(" % name, f.dem)]
        if not fs:
            raise AnchorLost('driver function %s' % name)
        return fs[0]

    def data(self, cls):
        """offset of the value a class holds, or None if its layout is not one member after the vptr"""
        if cls not in self.off:
            t = self.prog.types.get(cls)
            m = (t or {}).get('m') or []
            self.off[cls] = m[0]['off'] if len(m) == 1 else None
        return self.off[cls]

    def cases(self, name, dyn, args, judge, what):
        """evaluate one accessor for one assignment of classes; judge(T, path) returns None or a message"""
        ctx = self.ctx
        f = self.fn(name)
        label = '%s of %s' % (what, ', '.join('null' if c is None else c.split('::')[-1] for c in dyn.values()) or 'any value')
        ctx.ob('type', label)
        ctx.count('cases')
        T = Typed(self.prog, f, dyn, args)
        try:
            ps = T.run()
            if not ps:
                raise Undecided('no path')
            msgs = []
            for p in ps:
                m = judge(T, p)
                if m and opaque(p) and not getattr(judge, 'strong', False):
                    raise Undecided('the path depends on the result of a library call')
                if m:
                    msgs.append((m, p))
            ctx.count('paths', len(ps))
        except NullUse as e:
            if opaque(T.cur):
                ctx.count('undecided')
                return
            ctx.bad('type', f, self.where(e.i), '%s: %s a null pointer or the null result of a failed cast' % (label, e.what))
            return
        except Undecided as e:
            ctx.count('undecided')
            ctx.samples.append("undecided %s: %s" % (label, e))
            if os.environ.get("UND"):
                print("undecided %s: %s" % (label, e))
            return
        for m, p in msgs[:1]:
            i = p.end[2] if isinstance(p.end, tuple) and len(p.end) > 2 else T.at
            ctx.bad('type', f, self.where(i) if i is not None else name, '%s: %s' % (label, m))

    def where(self, i):
        return i.where() if hasattr(i, 'where') else str(i)

    def elements(self, kind, flag):
        """equals of two arrays or objects: sizes, and every element with the same flag"""
        ctx = self.ctx
        fs = [f for f in self.prog.funcs if f.dem.startswith('pfi::text::json::equals(') and f.dem.endswith('bool)')]
        label = 'equals(%s) of two %ss' % ('implicit conversion' if flag else 'no conversion', kind)
        ctx.ob('type', label)
        ctx.count('cases')
        try:
            if len(fs) != 1:
                raise Undecided('no function equals')
            f = fs[0]
            A, B = ('*', 'a0', 0), ('*', 'a1', 0)
            off = self.data(J + kind)
            S0, S1 = var('size', A, off), var('size', B, off)
            T = Typed(self.prog, f, {A: J + kind, B: J + kind}, {'a2': num(flag)}, f.loops())
            T.pure = True
            bad = []

            def both(p, op, x, y):
                t = T.truth(p, ('cmp', op, x, y))
                return t if t is not None else T.truth(p, ('cmp', SWAP[op], y, x))

            def rec(p):
                return [(i, a) for k, i, a in [e for e in p.ev if e[0] == 'call'] if (i.dem or '') == f.dem]

            entry = T.run()
            sized = {}
            heads = []
            for p in entry:
                if p.end == 'ret':
                    t = T.truth(p, p.ret)
                    eq = both(p, 'eq', S0, S1)
                    if t is False and eq is False:
                        continue
                    if t is False and eq is None:
                        lt = both(p, 'lt', S0, S1), both(p, 'gt', S0, S1)
                        if True in lt:
                            continue
                    if opaque(p) or t is None:
                        raise Undecided('path before the loop')
                    if t is True:
                        if both(p, 'eq', S0, num(0)) and eq:
                            continue
                        bad.append((p, 'true before any element was compared'))
                    else:
                        bad.append((p, 'false for values of the same size without comparing their elements'))
                elif isinstance(p.end, tuple) and p.end[0] == 'cut':
                    heads.append(p)
                elif isinstance(p.end, tuple) and p.end[0] == 'throw':
                    bad.append((p, 'throws %s' % p.end[1]))
                else:
                    raise Undecided('path before the loop')
            if not heads and not bad:
                raise Undecided('no loop over the elements')
            for h in heads:
                b = h.end[1]
                p0 = h.copy()
                ix = None
                for k, v in h.phis.items():
                    if kind == 'array' and isinstance(v, R) and v.const() == 0:
                        if ix is not None:
                            raise Undecided('two counters')
                        ix = k
                        p0.env[k] = var('i', k)
                    elif isinstance(v, R):
                        p0.env[k] = var('loop', k)
                    else:
                        p0.env[k] = ('P', ('loop', k), 0)
                if kind == 'array' and ix is None:
                    if any(isinstance(v, R) and v.const() is not None for v in h.phis.values()):
                        raise Undecided('counter does not start at 0')
                    raise Undecided('no counter')
                p0.ev = []
                for x in f.insts():
                    if x.op == 'alloca':
                        p0.log.append(('any', x.id, 'loop'))
                T.steps = 0
                I = var('i', ix)
                sz0 = both(h, 'eq', S0, S1)
                for p in T.run(b, p0):
                    cs = rec(p)
                    if isinstance(p.end, tuple) and p.end[0] == 'throw':
                        continue
                    if len(cs) > 1:
                        raise Undecided('two comparisons in one turn')
                    res = None
                    if cs:
                        i, a = cs[0]
                        fl = a[2].const() if isinstance(a[2], R) else None
                        if fl is None:
                            raise Undecided('flag')
                        if fl != flag:
                            bad.append((p, 'elements are compared with another conversion flag'))
                            continue
                        if kind == 'array':
                            e = [x[1] if isinstance(x, tuple) and x[0] == 'P' else None for x in a[:2]]
                            if not all(isinstance(x, tuple) and x[0] == 'elem' for x in e):
                                raise Undecided('elements compared')
                            if set(x[1] for x in e) != set((A, B)):
                                bad.append((p, 'elements of one array are compared with each other'))
                                continue
                            if e[0][2] != e[1][2] or e[0][2] != I.key():
                                bad.append((p, 'elements at different positions are compared'))
                                continue
                        res = T.truth(p, p.env[i.id])
                    if p.end == ('cut', b):
                        if res is not True:
                            if not cs and opaque(p) and kind == 'array':
                                raise Undecided('turn without comparison')
                            bad.append((p, 'an element is passed over without being equal'))
                            continue
                        if kind == 'array':
                            n = p.phis.get(ix)
                            if not isinstance(n, R) or not n.same(I + num(1)):
                                bad.append((p, 'elements are skipped: the counter becomes %s' % n))
                    elif p.end == 'ret':
                        t = T.truth(p, p.ret)
                        lt = both(p, 'lt', I, S0) if kind == 'array' else None
                        if lt is None and kind == 'array':
                            x = both(p, 'ne', I, S0)
                            lt = x
                        if t is None and kind == 'array' and isinstance(p.ret, tuple) and p.ret[0] == 'cmp' and p.ret[1] in ('eq', 'ne') and lt is not None and \
                                any(x.same(I) and y.same(S0) for x, y in ((p.ret[2], p.ret[3]), (p.ret[3], p.ret[2])) if isinstance(x, R) and isinstance(y, R)):
                            t = (not lt) == (p.ret[1] == 'eq')
                        if t is None:
                            raise Undecided('returned value')
                        if t is False:
                            if res is False or (kind == 'object' and not cs and opaque(p)):
                                continue
                            if both(p, 'eq', S0, S1) is False:
                                continue
                            if opaque(p) or kind == 'object':
                                raise Undecided('false returned')
                            bad.append((p, 'false although every element compared so far is equal'))
                            continue
                        if cs:
                            raise Undecided('true returned after a comparison')
                        if kind == 'array' and lt is not False:
                            if lt is None and not any(I.atom() in x.atoms() for q, v in p.conds for x in q[1:] if isinstance(x, R)):
                                raise Undecided('end of the loop')
                            bad.append((p, 'true before the last element was compared'))
                            continue
                        if not sz0 and not both(p, 'eq', S0, S1):
                            if any(S1.atom() in x.atoms() and x.atom() is None for q, v in p.conds for x in q[1:] if isinstance(x, R)):
                                raise Undecided('sizes')
                            bad.append((p, 'true for values of different sizes'))
                    else:
                        raise Undecided('inner loop')
            ctx.count('paths', len(entry))
        except NullUse as e:
            if opaque(T.cur):
                ctx.count('undecided')
                return
            ctx.bad('type', fs[0], self.where(e.i), '%s: %s the null result of a failed cast' % (label, e.what))
            return
        except Undecided as e:
            ctx.count('undecided')
            ctx.samples.append("undecided %s: %s" % (label, e))
            if os.environ.get("UND"):
                print("undecided %s: %s" % (label, e))
            return
        for p, m in bad[:1]:
            ctx.bad('type', fs[0], self.where(next(iter(fs[0].insts()))), '%s: %s' % (label, m))

    # --- judgements
    def throws(self, base):
        def j(T, p):
            if isinstance(p.end, tuple) and p.end[0] == 'throw':
                t = p.end[1]
                if t is None:
                    raise Undecided('exception of unknown type')
                if t == base or self.prog.derives(t, base) or t.startswith(base + '<') or (base.endswith('_any') and t.startswith(base[:-4] + '<')):
                    return None
                return 'throws %s, not %s' % (t, base)
            return 'returns a value instead of throwing %s' % base.split('::')[-1]
        return j

    def value(self, root, off, ok=()):
        def j(T, p):
            if p.end != 'ret':
                return 'throws %s instead of returning the stored value' % (p.end[1] if isinstance(p.end, tuple) else p.end)
            r = p.ret
            pos = True
            if isinstance(r, tuple):
                pos, r = boolval(T, r)
                if not pos:
                    return 'returns the opposite of the stored value'
            r = unwrap(T, r, ok)
            if isld(r, root, off):
                return None
            if isinstance(r, R) and (r.const() is not None):
                # decided by an earlier test of the stored value
                for q, v in p.conds:
                    x = q[1] if q[0] == 'bool' else (q[2] if q[0] == 'cmp' and isinstance(q[3], R) and q[3].const() == 0 else None)
                    if x is not None and isld(unwrap(T, x, ok), root, off):
                        tv = v if q[0] == 'bool' or q[1] == 'ne' else not v
                        return None if int(tv) == r.const() else 'returns the opposite of the stored value'
                return 'returns the constant %s instead of the stored value' % r.const()
            if isinstance(r, R):
                a = r.atom()
                if a and a[0] == 'ld':
                    return 'returns other memory (%s) than the stored value' % name(a)
                d = T.defs.get(a) if a else None
                if d is not None and isld(unwrap(T, d[1], ('trunc', 'tofloat', 'fptosi', 'fptoui')), root, off):
                    return 'returns the stored value after a narrowing conversion (%s)' % d[0]
                if a and a[0] == 'res':
                    raise Undecided('result of a call')
                return 'returns %s instead of the stored value' % r
            raise Undecided('returned value')
        return j

    def default(self, root, ok=()):
        def j(T, p):
            if p.end != 'ret':
                return 'throws %s instead of returning the default' % (p.end[1] if isinstance(p.end, tuple) else p.end)
            r = unwrap(T, p.ret, ok)
            if isinstance(r, tuple):
                pos, r = boolval(T, r)
                if not pos:
                    return 'returns the opposite of the default'
            if isld(r, root, 0):
                return None
            if isinstance(r, R) and r.const() is not None:
                for q, v in p.conds:
                    x = q[1] if q[0] == 'bool' else (q[2] if q[0] == 'cmp' and isinstance(q[3], R) and q[3].const() == 0 else None)
                    if x is not None and isld(x, root, 0):
                        tv = v if q[0] == 'bool' or q[1] == 'ne' else not v
                        return None if int(tv) == r.const() else 'returns the opposite of the default'
                return 'returns the constant %s instead of the default' % r.const()
            if isinstance(r, R) and r.atom() and r.atom()[0] == 'ld':
                return 'returns %s instead of the default' % name(r.atom())
            d = T.defs.get(r.atom()) if isinstance(r, R) and r.atom() else None
            if d is not None and isld(unwrap(T, d[1], ('trunc', 'tofloat')), root, 0):
                return 'returns the default after a narrowing conversion'
            raise Undecided('returned value')
        return j

    def string(self, want):
        """the string written to the result is a copy of want (a pointer), or empty"""
        def j(T, p):
            if p.end != 'ret':
                return 'throws %s instead of returning a string' % (p.end[1] if isinstance(p.end, tuple) else p.end)
            w = [(i, a) for k, i, a in [e for e in p.ev if e[0] == 'call'] if a and a[0] == ('P', 'a0', 0) and not re.search(r'~basic_string|_M_local_data|get_allocator', i.dem or '')]
            if len(w) != 1:
                raise Undecided('%d operations on the result' % len(w))
            i, a = w[0]
            d = (i.dem or '').replace(STR, 'S')
            if 'basic_string' not in d and 'S::' not in d:
                raise Undecided('result built by %s' % d[:60])
            if re.search(r'basic_string\(\)$', d):
                return None if want == '' else 'returns the empty string'
            if len(a) < 2 or not (isinstance(a[1], tuple) and a[1][0] == 'P'):
                raise Undecided('source of the result')
            if re.search(r'basic_string\(char const\*', d) or re.search(r'basic_string<std::allocator<char>>\(char const\*', d):
                s = self.prog.globals.get(a[1][1][2:], {}) if isinstance(a[1][1], str) and a[1][1].startswith('g:') else {}
                c = s.get('init')
                c = ''.join(map(chr, c)) if isinstance(c, list) and all(isinstance(x, int) and 0 <= x < 256 for x in c) else ('' if s.get('zero') else None)
                if c is None:
                    raise Undecided('constant')
                if want == '':
                    return None if c.rstrip('\0') == '' else 'returns "%s"' % c
                return 'returns a constant string'
            if not re.search(r'basic_string\((S|std::__cxx11::basic_string)( const&|&&|<)', d):
                raise Undecided('result built by %s' % d[:80])
            if a[1] == want:
                return None
            if isinstance(a[1][1], str) and not re.match(r'^a\d+$', a[1][1]):
                raise Undecided('copy of a temporary')
            if isinstance(a[1][1], tuple) and a[1][1][0] != '*':
                raise Undecided('copy of a computed string')
            return 'returns another string than the %s' % ('empty one' if want == '' else 'stored or default one')
        return j

    def container(self, rx, root, off, rest, ret, also=()):
        def j(T, p):
            if isinstance(p.end, tuple) and p.end[0] == 'throw':
                if p.end[1] in also:
                    return None
                return 'throws %s on a value of the right type' % p.end[1]
            cs = [(i, a) for k, i, a in [e for e in p.ev if e[0] == 'call'] if a and a[0] == ('P', root, off)]
            if not cs:
                return 'returns without using the stored container'
            ms = [(i, a) for i, a in cs if re.search(rx, i.dem or '')]
            if not ms:
                raise Undecided('container used through %s' % (cs[0][0].dem or '')[:60])
            for i, a in ms:
                for k, w in rest:
                    if len(a) > k and a[k] != w and isinstance(a[k], tuple) and a[k][0] == 'P' and isinstance(a[k][1], str) and re.match(r'^a\d+$', a[k][1]):
                        return 'the container is given another argument'
            if ret:
                i, a = ms[-1]
                r = p.ret
                if isinstance(r, R) and r.const() is not None:
                    return 'returns the constant %s' % r.const()
                if r not in (('P', ('res', i.id), 0),) and not (isinstance(r, R) and r.atom() == ('res', i.id)):
                    raise Undecided('returned value')
            return None
        return j

    def made(self, cls, arg='a1'):
        """the value handed out is a new object of the class that holds the argument"""
        def j(T, p):
            if p.end != 'ret':
                return None if opaque(p) else 'throws %s' % (p.end[1] if isinstance(p.end, tuple) else p.end)
            hs = [a[1] for k, i, a in [e for e in p.ev if e[0] == 'call'] if re.search(r'>::(shared_ptr|reset)<', i.dem or '') and len(a) > 1]
            if not hs or not (isinstance(hs[-1], tuple) and hs[-1][0] == 'P' and isinstance(hs[-1][1], tuple) and hs[-1][1][0] == 'new'):
                raise Undecided('value handed out')
            root = hs[-1][1]
            vt = T.load(p, root, 0, 8, 'ptr')
            d = self.prog.globals.get(vt[1][2:], {}).get('dem', '') if isinstance(vt, tuple) and vt[0] == 'P' and isinstance(vt[1], str) and vt[1].startswith('g:') else ''
            if not d.startswith('vtable for '):
                raise Undecided('class of the new object')
            if d[11:] != cls:
                return 'makes a %s, not a %s' % (d[11:].split('::')[-1], cls.split('::')[-1])
            off = self.data(cls)
            if off is None:
                raise Undecided('layout')
            st = [e for e in p.log if e[0] == 'st' and e[1] == root and e[2] == off]
            if st:
                v = unwrap(T, st[-1][4], ())
                if isinstance(v, R) and v.atom() == ('arg', arg):
                    return None
                if isinstance(v, R) and v.const() is not None:
                    return 'stores the constant %s' % v.const()
                x = T.defs.get(v.atom()) if isinstance(v, R) and v.atom() else None
                if x is not None and x[0] in ('trunc', 'tofloat', 'fptosi', 'fptoui'):
                    return 'stores the value after a narrowing conversion'
                raise Undecided('stored value')
            cp = [e for e in p.log if e[0] == 'cp' and e[1] == root and e[2] == off]
            cc = [a for k, i, a in [e for e in p.ev if e[0] == 'call'] if a and a[0] == ('P', root, off)]
            if cp:
                return None if cp[-1][4:6] == (arg, 0) else 'copies other memory'
            if len(cc) == 1 and len(cc[0]) > 1 and cc[0][1] == ('P', arg, 0):
                return None
            raise Undecided('stored value')
        j.strong = True     # what is stored does not depend on how the path was chosen
        return j

    def returns(self):
        def j(T, p):
            return None if p.end == 'ret' else 'throws %s on values of the right type' % (p.end[1] if isinstance(p.end, tuple) else p.end)
        return j

    def pair(self, root, off):
        def j(T, p):
            m = self.returns()(T, p)
            if m or not (isinstance(p.ret, tuple) and p.ret[0] == 'A'):
                return m
            d = dict(p.ret[1])
            for k, o in (((0,), 0), ((1,), 8)):
                x = d.get(k)
                if isinstance(x, R) and x.atom() and x.atom()[0] == 'ld' and x.atom() != ('ld', root, off + o):
                    return 'returns other memory than the stored time'
            return None
        return j

    def const(self, v):
        def j(T, p):
            if p.end != 'ret':
                return 'throws %s' % (p.end[1] if isinstance(p.end, tuple) else p.end)
            r = p.ret
            if isinstance(r, tuple):
                t = T.truth(p, r)
                if t is None:
                    raise Undecided('returned value')
                r = num(int(t))
            k = r.const() if isinstance(r, R) else None
            if k is None:
                raise Undecided('returned value')
            return None if k == v else 'gives %d, not %d' % (k, v)
        return j

    def truth(self, E):
        """the result is true exactly if E = (rel, a, b) (or a constant) holds"""
        def j(T, p):
            if p.end != 'ret':
                return 'throws %s' % (p.end[1] if isinstance(p.end, tuple) else p.end)
            r = p.ret
            t = T.truth(p, r) if isinstance(r, tuple) else (None if r.const() is None else bool(r.const()))
            if isinstance(E, bool):
                if t is None:
                    return 'depends on the stored values instead of being always %s' % E
                return None if t == E else 'is %s instead of %s' % (t, E)
            if callable(E):
                return E(T, p, t)
            e = ('cmp',) + E
            if t is not None:
                et = T.truth(p, e)
                if et is None:
                    et = T.truth(p, ('cmp', SWAP[E[0]], E[2], E[1]))
                if et is None:
                    if not p.conds:
                        return 'is always %s' % t
                    raise Undecided('path condition')
                return None if et == t else 'is %s where %s holds' % (t, show(E, et))
            pos = True
            while isinstance(r, tuple) and r[0] == 'not':
                pos, r = not pos, r[1]
            if not (isinstance(r, tuple) and r[0] == 'cmp' and isinstance(r[2], R) and isinstance(r[3], R)):
                raise Undecided('returned value')
            op = r[1] if pos else NEG[r[1]]
            for o, x, y in ((op, r[2], r[3]), (SWAP[op], r[3], r[2])):
                if x.same(E[1]) and y.same(E[2]):
                    return None if o == E[0] else 'is decided by %s, not %s, of the stored values' % (o, E[0])
            return 'compares %s with %s' % (r[2], r[3])
        return j


def show(E, v):
    return '%s%s %s %s' % ('' if v else 'not ', E[1], E[0], E[2])


def check(ctx):
    prog = ctx.prog('typed')
    K = Check(ctx, prog)
    R0, R1, R2 = ('*', 'a0', 0), ('*', 'a1', 0), ('*', 'a2', 0)
    JB = 'pfi::text::json::json_bad_cast_any'
    # json_cast and json_cast_with_default
    jc = [('bool', {'bool': ()}, 'bool'), ('int', {'integer': ('trunc',)}, 'int'), ('long', {'integer': ()}, 'long'), ('llong', {'integer': ()}, 'long long'),
          ('float', {'float': ('tofloat',), 'integer': ('tofloat',)}, 'float'), ('double', {'float': (), 'integer': ()}, 'double'), ('string', {'string': ()}, 'string')]
    for n, ok, t in jc:
        for c in JS:
            cls = J + c
            if n == 'string':
                good = K.string(('P', R1, K.data(cls))) if c in ok else None
                K.cases('jc_string', {R1: cls}, None, good or K.throws(JB), 'json_cast<string>')
                K.cases('jd_string', {R1: cls}, None, good or K.string(('P', 'a2', 0)), 'json_cast_with_default<string>')
                continue
            K.cases('jc_' + n, {R0: cls}, None, K.value(R0, K.data(cls), ok[c]) if c in ok else K.throws(JB), 'json_cast<%s>' % t)
            K.cases('jd_' + n, {R0: cls}, None, K.value(R0, K.data(cls), ok[c]) if c in ok else K.default('a1', ('trunc',) if n == 'int' else ()), 'json_cast_with_default<%s>' % t)
    # is<> and type()
    for q in ['null', 'integer', 'float', 'number', 'bool', 'string', 'array', 'object']:
        for c in JS:
            K.cases('is_' + q, {R0: J + c}, None, K.const(int(c == q or (q == 'number' and c in ('integer', 'float')))), 'is<json_%s>' % q)
    kinds = {}
    for c in JS:
        T = Typed(prog, K.fn('k_' + c), {})
        kinds[c] = int(T.run()[0].ret.const())
    if len(set(kinds.values())) != len(JS):
        ctx.bad('type', K.fn('k_null'), 'json::json_type_t', 'two kinds of json share a type code')
    for c in JS:
        K.cases('jo_type', {R0: J + c}, None, K.const(kinds[c]), 'json::type()')
    # object and array operations
    oor = ('std::out_of_range',)
    ops = [('jo_name', 'object', r'operator\[\]', [(1, ('P', 'a1', 0))], True, (), 'operator[](name)'),
           ('jo_cname', 'object', r'(find|at|count|equal_range)\(', [(1, ('P', 'a1', 0))], False, oor, 'const operator[](name)'),
           ('jo_at', 'array', r'(operator\[\]|at)', [], True, oor, 'operator[](index)'),
           ('jo_cat', 'array', r'(operator\[\]|at)', [], True, oor, 'const operator[](index)'),
           ('jo_count', 'object', r'(count)\(', [(1, ('P', 'a1', 0))], True, (), 'count'),
           ('jo_put', 'object', r'(operator\[\]|insert|emplace|insert_or_assign|find)', [(1, ('P', 'a1', 0))], False, (), 'add(name, value)'),
           ('jo_push', 'array', r'(push_back|insert|emplace_back|emplace)', [(1, ('P', 'a1', 0))], False, (), 'add(value)'),
           ('jo_size', ('array', 'object'), r'size\(', [], True, (), 'size'),
           ('jo_begin', 'object', r'begin\(', [], False, (), 'begin'), ('jo_end', 'object', r'end\(', [], False, (), 'end'),
           ('jo_cbegin', 'object', r'begin\(', [], False, (), 'const begin'), ('jo_cend', 'object', r'end\(', [], False, (), 'const end')]
    for n, good, rx, rest, ret, also, what in ops:
        for c in JS:
            cls = J + c
            if c == good or (isinstance(good, tuple) and c in good):
                K.cases(n, {R0: cls}, None, K.container(rx, R0, K.data(cls), rest, ret, also), what)
            else:
                K.cases(n, {R0: cls}, None, K.throws(JB), what)
    for c in JS:
        for d in JS:
            K.cases('jo_merge', {R1: J + c, R2: J + d}, None, K.returns() if c == 'object' == d else K.throws(JB), 'merge')
    # equals
    for fl in (0, 1):
        for c in JS:
            for d in JS:
                A, B = J + c, J + d
                dyn = {R0: A, R1: B}
                a, b = var('ld', R0, K.data(A)), var('ld', R1, K.data(B))
                what = 'equals(%s)' % ('implicit conversion' if fl else 'no conversion')
                args = {'a2': num(fl)}
                if c == d and c in ('integer', 'float', 'bool'):
                    E = ('eq', a, b)
                elif set((c, d)) == set(('integer', 'float')):
                    E = ('eq', a, b) if fl else False
                elif c != d:
                    E = False
                elif c == 'null':
                    E = True
                elif c == 'string':
                    x, y = ('P', R0, K.data(A)), ('P', R1, K.data(B))

                    def E(T, p, t, x=x, y=y):
                        cs = [e for e in p.ev if e[0] == 'call' and re.search(r'operator(==|!=)|compare\(', e[1].dem or '')]
                        if len(cs) != 1:
                            if not cs and t is not None:
                                return 'is always %s' % t
                            raise Undecided('string comparison')
                        _, i, ar = cs[0]
                        if not (ar[:2] == [x, y] or ar[:2] == [y, x]):
                            if ar[:2] in ([x, x], [y, y]):
                                return 'compares a string with itself'
                            raise Undecided('string comparison')
                        eqop = 'operator==' in (i.dem or '')
                        r = p.ret
                        pos = True
                        while isinstance(r, tuple) and r[0] == 'not':
                            pos, r = not pos, r[1]
                        if isinstance(r, tuple) and r[0] == 'cmp' and isinstance(r[3], R) and r[3].const() == 0 and r[1] in ('eq', 'ne'):
                            pos, r = pos == (r[1] == 'ne'), r[2]
                        if isinstance(r, R) and r.atom() == ('res', i.id):
                            return None if pos == eqop else 'is the opposite of the comparison of the strings'
                        raise Undecided('string comparison')
                else:
                    continue
                K.cases('je_equals', dyn, args, K.truth(E), what)
    for fl in (0, 1):
        K.elements('array', fl)
        K.elements('object', fl)
    # database values
    DE = 'pfi::database::database_error'
    fs = [('bool', ('bool',)), ('int32', ('int32', 'int64')), ('int64', ('int32', 'int64')), ('double', ('float',))]
    for n, ok in fs:
        for c in DB + [None]:
            cls = D + c if c else None
            if n == 'int32' and c == 'int64':
                j = narrow(K, R0, K.data(cls), DE)
            elif c in ok:
                j = K.value(R0, K.data(cls))
            else:
                j = K.throws(DE)
            K.cases('fs_' + n, {R0: cls}, None, j, 'from_sql<%s>' % n)
    for c in DB + [None]:
        cls = D + c if c else None
        K.cases('fs_string', {R1: cls}, None, K.string(('P', R1, K.data(cls)) if c == 'string' else ''), 'from_sql<string>')
        K.cases('fs_clock', {R0: cls}, None, K.throws(DE) if c != 'timestamp' else K.pair(R0, K.data(cls)), 'from_sql<clock_time>')
        K.cases('fs_calendar', {R1: cls}, None, K.throws(DE) if c != 'timestamp' else K.returns(), 'from_sql<calendar_time>')
    for n, c in (('bool', 'bool'), ('int', 'integer'), ('uint', 'integer'), ('long', 'integer'), ('llong', 'integer'), ('float', 'float'), ('double', 'float'), ('string', 'string')):
        K.cases('tj_' + n, {}, None, K.made(J + c), 'to_json(%s)' % n)
    for n in ('bool', 'int32', 'int64', 'float', 'string', 'timestamp'):
        K.cases('ts_' + n, {}, None, K.made(D + n), 'to_sql(%s)' % n)
    # any
    holders = [t[13:] for t in (g.get('dem', '') for g in prog.globals.values()) if t.startswith('typeinfo for pfi::lang::any::holder<')]
    ctx.need('any holders', len(holders), 2)
    for n, rx in (('int', r'holder<int>$'), ('string', r'holder<std::')):
        for h in sorted(set(holders)) + [None]:
            if h and re.search(rx, h):
                def j(T, p):
                    if p.end != 'ret':
                        return 'throws on a value of the right type'
                    if p.ret == ('P', R0, 8):
                        return None
                    if isinstance(p.ret, tuple) and p.ret[0] == 'P' and p.ret[1] == R0:
                        return 'refers to offset %d, not to the value' % p.ret[2]
                    raise Undecided('returned value')
            else:
                j = K.throws('pfi::lang::bad_any_cast')
            K.cases('ac_' + n, {R0: h}, None, j, 'any_cast<%s>' % n)
    for h in sorted(set(holders)) + [None]:
        def j(T, p, h=h):
            if p.end != 'ret':
                return 'throws'
            t = tiname(prog, p.ret) if isinstance(p.ret, tuple) and p.ret[0] == 'P' else None
            if t is None:
                raise Undecided('returned value')
            w = h[h.index('<') + 1:-1] if h else 'void'
            return None if t.replace(' ', '') == w.replace(' ', '') else 'is %s, not %s' % (t, w)
        K.cases('ac_type', {R0: h}, None, j, 'any::type()')
    # optional
    a, b = var('ld', R0, 0), var('ld', R1, 0)
    for n, op, tab in (('eq', 'eq', (True, False, False)), ('ne', 'ne', (False, True, True)), ('lt', 'lt', (False, True, False)),
                       ('gt', 'gt', (False, False, True)), ('le', 'le', (True, True, False)), ('ge', 'ge', (True, False, True))):
        for x in (None, 'value'):
            for y in (None, 'value'):
                E = (op, a, b) if x and y else (tab[0] if not x and not y else (tab[1] if not x else tab[2]))
                K.cases('op_' + n, {R0: x, R1: y}, None, K.truth(E), 'optional %s' % {'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}[n])


def narrow(K, root, off, DE):
    LO, HI = -(1 << 31), (1 << 31) - 1
    th = K.throws(DE)

    def j(T, p):
        lo, hi = None, None
        same = None
        at = ('ld', root, off)
        for q, v in p.conds:
            if q[0] != 'cmp' or not (isinstance(q[2], R) and isinstance(q[3], R)):
                raise Undecided('condition')
            op, x, y = q[1], q[2], q[3]
            if not v:
                op = NEG[op]
            if y.atom() == at:
                op, x, y = SWAP[op], y, x
            if x.atom() != at:
                raise Undecided('condition')
            k = y.const()
            if k is None:
                u = unwrap(T, y, ('trunc',))
                if isld(u, root, off) and op in ('eq', 'ne'):
                    same = op == 'eq'
                    continue
                raise Undecided('condition')
            if op in ('ge', 'gt', 'eq'):
                n = k + (op == 'gt')
                lo = n if lo is None else max(lo, n)
            if op in ('le', 'lt', 'eq'):
                n = k - (op == 'lt')
                hi = n if hi is None else min(hi, n)
            if op == 'ne':
                raise Undecided('condition')
        if lo is not None and hi is not None and lo > hi:
            return None
        if p.end == 'ret':
            m = K.value(root, off, ('trunc',))(T, p)
            if m:
                return m
            if same is True or (lo is not None and hi is not None and LO <= lo and hi <= HI):
                return None
            return 'returns a truncated number: values from %s to %s reach the conversion' % ('-2^63' if lo is None else lo, '2^63-1' if hi is None else hi)
        m = th(T, p)
        if m:
            return m
        if same is False or (lo is not None and lo > HI) or (hi is not None and hi < LO):
            return None
        return 'rejects a number that fits (from %s to %s)' % ('-2^63' if lo is None else lo, '2^63-1' if hi is None else hi)
    return j

"""pfa - a small static-analysis framework over the normalised LLVM IR that
engine/irdump.cpp extracts from /repo's sources.

Nothing here executes the analysed code: functions are control-flow graphs,
values are expression trees, and properties are dataflow / typestate problems
over them.
"""
import json
import re
import sys

sys.setrecursionlimit(20000)


class AnchorLost(Exception):
    """The code a rule is anchored to is no longer there: no verdict."""


def short(dem):
    """function name without argument list / return type / template args"""
    depth = 0
    out = []
    i = 0
    s = dem
    while i < len(s):
        c = s[i]
        if s.startswith('operator', i) and (i == 0 or not (s[i-1].isalnum() or s[i-1] == '_')):
            # keep operator symbols literally
            m = re.match(r'operator\s*(\(\)|\[\]|->\*?|<<=?|>>=?|<=>|<=|>=|==|!=|&&|\|\||\+\+|--|[-+*/%^&|~!=<>]=?|,|new\[\]|delete\[\]|new|delete)', s[i:])
            if m and depth == 0:
                out.append(m.group(0).replace(' ', ''))
                i += m.end()
                continue
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif c == '(' and depth == 0:
            if s.startswith('(anonymous namespace)', i):
                out.append('(anonymous namespace)')
                i += len('(anonymous namespace)')
                continue
            # a local entity "f(args)::x": skip the argument list
            k = i
            n = 0
            while k < len(s):
                if s[k] == '(':
                    n += 1
                elif s[k] == ')':
                    n -= 1
                    if n == 0:
                        break
                k += 1
            m = re.match(r'\)( const)?::', s[k:])
            if m:
                i = k + m.end() - 2
                continue
            break
        elif depth == 0:
            out.append(c)
        i += 1
    r = ''.join(out).strip()
    # drop a leading return type ("void foo<..>(..)" for templates)
    if ' ' in r and 'operator' not in r:
        r = r.split(' ')[-1]
    elif 'operator' in r:
        k = r.find('operator')
        pre = r[:k]
        if ' ' in pre:
            r = pre.split(' ')[-1] + r[k:]
    return r


_shortcache = {}


def sname(dem):
    r = _shortcache.get(dem)
    if r is None:
        r = _shortcache[dem] = short(dem)
    return r


class Inst(object):
    __slots__ = ('id', 'op', 'ty', 'ops', 'loc', 'd', 'blk', 'idx')

    def __init__(self, d, blk, idx):
        self.d = d
        self.id = d['i']
        self.op = d['op']
        self.ty = d['t']
        self.ops = d.get('o', [])
        self.loc = d.get('l')
        self.blk = blk
        self.idx = idx

    @property
    def iscall(self):
        return self.op in ('call', 'invoke')

    @property
    def dem(self):
        return self.d.get('dem', '')

    @property
    def callee(self):
        return sname(self.d['dem']) if 'dem' in self.d else ''

    @property
    def line(self):
        return self.loc[1] if self.loc else 0

    @property
    def file(self):
        return self.loc[0] if self.loc else ''

    def where(self, prefer_repo=True):
        """file:line, preferring a location inside the repository"""
        if not self.loc:
            return '?'
        f, l = self.loc[0], self.loc[1]
        if prefer_repo and f.startswith('/') and len(self.loc) > 3:
            for c in self.loc[3]:
                if not c.startswith('/'):
                    return c
        return '%s:%s' % (f, l)

    def __repr__(self):
        return '<%s %s %s %s>' % (self.id, self.op, self.callee, self.ops)


class Func(object):
    def __init__(self, d):
        self.d = d
        self.name = d['name']
        self.dem = d['dem']
        self.short = sname(d['dem'])
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.cls = d.get('cls')
        self.acc = d.get('acc', 'public')
        self.args = d['args']
        self.blocks = [[Inst(x, bi, k) for k, x in enumerate(b)] for bi, b in enumerate(d['b'])]
        self.defs = {}
        for b in self.blocks:
            for i in b:
                self.defs[i.id] = i
        self._path = {}
        self._dom = None
        self._preds = None
        self._uses = None

    # ------------------------------------------------------------ structure
    def insts(self):
        for b in self.blocks:
            for i in b:
                yield i

    def calls(self):
        for i in self.insts():
            if i.iscall:
                yield i

    def succs(self, bi, exceptional=True):
        t = self.blocks[bi][-1]
        if t.op == 'br':
            return list(t.d['succ'])
        if t.op == 'switch':
            return [t.d['def']] + [c[1] for c in t.d['cases']]
        if t.op == 'invoke':
            return [t.d['normal']] + ([t.d['unwind']] if exceptional else [])
        return []

    @property
    def preds(self):
        if self._preds is None:
            p = [[] for _ in self.blocks]
            for b in range(len(self.blocks)):
                for s in self.succs(b):
                    if b not in p[s]:
                        p[s].append(b)
            self._preds = p
        return self._preds

    @property
    def uses(self):
        if self._uses is None:
            u = {}
            for i in self.insts():
                for o in i.ops:
                    u.setdefault(base_of_ce(o), []).append(i)
                for v in i.d.get('var', []):
                    u.setdefault(v[0], []).append(i)
                if 'cv' in i.d:
                    u.setdefault(i.d['cv'], []).append(i)
            self._uses = u
        return self._uses

    def dominators(self):
        if self._dom is None:
            n = len(self.blocks)
            full = set(range(n))
            dom = [full.copy() for _ in range(n)]
            dom[0] = {0}
            order = self.rpo()
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == 0:
                        continue
                    ps = [p for p in self.preds[b] if p in set(order)]
                    s = None
                    for p in ps:
                        s = dom[p].copy() if s is None else (s & dom[p])
                    s = s or set()
                    s.add(b)
                    if s != dom[b]:
                        dom[b] = s
                        ch = True
            self._dom = dom
        return self._dom

    def rpo(self):
        seen = set()
        out = []
        st = [(0, iter(self.succs(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def dominates(self, i, j):
        """instruction i dominates instruction j"""
        if i.blk == j.blk:
            return i.idx < j.idx
        return i.blk in self.dominators()[j.blk]

    def loops(self):
        """natural loops: header -> set of blocks"""
        res = {}
        dom = self.dominators()
        live = set(self.rpo())
        for b in live:
            for s in self.succs(b):
                if s in dom[b]:
                    body = {s}
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in self.preds[x] if p in live)
                    res.setdefault(s, set()).update(body)
        return res

    # ------------------------------------------------------------ pointers
    def path(self, v):
        """(root, offset) of a pointer value. Roots: 'aN', '%N' (alloca, call
        result, phi ..), 'g:name', ('L', root, off) for a loaded pointer."""
        v = str(v)
        r = self._path.get(v)
        if r is not None:
            return r
        self._path[v] = (v, 0)     # cycle guard
        r = self._path_uncached(v)
        self._path[v] = r
        return r

    def _path_uncached(self, v):
        if v.startswith('ce:'):
            _, off, base = v.split(':', 2)
            r, o = self.path(base)
            return (r, o + int(off))
        d = self.defs.get(v)
        if d is None:
            return (v, 0)
        if d.op == 'getelementptr':
            r, o = self.path(d.ops[0])
            if 'off' in d.d and 'var' not in d.d:
                return (r, o + d.d['off'])
            return (('V', r, o, tuple((x[0], x[1]) for x in d.d.get('var', []))), d.d.get('off', 0))
        if d.op in ('bitcast', 'addrspacecast', 'freeze'):
            return self.path(d.ops[0])
        if d.op == 'load':
            r, o = self.path(d.ops[0])
            return (('L', r, o), 0)
        if d.op == 'phi':
            ps = set(self.path(x) for x in d.ops if x != v)
            if len(ps) == 1:
                return ps.pop()
        if d.op == 'select':
            ps = set(self.path(x) for x in d.ops[1:])
            if len(ps) == 1:
                return ps.pop()
        return (v, 0)

    def root_is_local(self, root):
        return isinstance(root, str) and root in self.defs and self.defs[root].op == 'alloca'

    # ---------------------------------------------------------- expressions
    def const(self, v):
        v = str(v)
        if v.startswith('c:'):
            return int(v[2:])
        if v in ('null', 'zero'):
            return 0
        return None

    def strip_casts(self, v):
        while True:
            d = self.defs.get(v)
            if d is not None and d.op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
                v = d.ops[0]
            else:
                return v

    def depends(self, v, pred, seen=None, through_calls=True, memory=False):
        """does value v (transitively through SSA operands) depend on an
        instruction satisfying pred?"""
        seen = set() if seen is None else seen
        st = [str(v)]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.startswith('ce:'):
                st.append(x.split(':', 2)[2])
                continue
            d = self.defs.get(x)
            if d is None:
                continue
            if pred(d):
                return True
            if d.iscall and not through_calls:
                continue
            st.extend(d.ops)
            st.extend(y[0] for y in d.d.get('var', []))
            if memory and (d.op == 'load' or d.iscall):
                for q in (d.ops[:1] if d.op == 'load' else d.ops):
                    if not isptr(q):
                        continue
                    p = self.path(q)
                    if self.root_is_local(p[0]):
                        for i in self.insts():
                            if i.op == 'store' and self.path(i.ops[1])[0] == p[0]:
                                st.append(i.ops[0])
                            elif i.iscall and i is not d and i.id not in seen and not i.callee.startswith('llvm.lifetime') \
                                    and any(self.path(o)[0] == p[0] for o in i.ops if isptr(o)):
                                if pred(i):
                                    return True
                                st.append(i.id)
        return False

    def __repr__(self):
        return '<Func %s>' % self.dem


def isptr(o):
    return not (o.startswith('c:') or o.startswith('f:') or o in ('null', 'undef', 'md', 'zero'))


def base_of_ce(o):
    while o.startswith('ce:'):
        o = o.split(':', 2)[2]
    return o


class Program(object):
    def __init__(self, dump):
        self.funcs = []
        self.types = {}
        self.enums = {}
        self.globals = {}
        self.stats = {}
        self._byname = {}
        with open(dump) as f:
            for line in f:
                d = json.loads(line)
                k = d['kind']
                if k == 'func':
                    fn = Func(d)
                    self.funcs.append(fn)
                elif k == 'type':
                    if d['name'] not in self.types or len(d['m']) > len(self.types[d['name']]['m']):
                        self.types[d['name']] = d
                elif k == 'enum':
                    self.enums[d['name']] = dict((e[0], e[1]) for e in d['e'])
                elif k == 'global':
                    self.globals[d['name']] = d
                elif k == 'stats':
                    self.stats = d
        # one body per demangled name (drop base-object constructor duplicates)
        seen = {}
        for f in self.funcs:
            seen.setdefault(f.dem, f)
        self.by_dem = seen
        for f in self.funcs:
            self._byname.setdefault(f.short, []).append(f)
        self.by_name = dict((f.name, f) for f in self.funcs)

    def named(self, short_name):
        """all functions with this qualified name (template args dropped)"""
        r = []
        ds = set()
        for f in self._byname.get(short_name, []):
            if f.dem not in ds:
                ds.add(f.dem)
                r.append(f)
        return r

    def need(self, short_name):
        r = self.named(short_name)
        if not r:
            raise AnchorLost('no function named %s' % short_name)
        return r

    def type(self, name):
        return self.types.get(name)

    # --- layout ------------------------------------------------------------
    def member_at(self, tname, off):
        """innermost-first list of (type, member) covering byte off"""
        t = self.types.get(strip_cv(tname))
        if not t:
            return None
        best = None
        for m in t['m']:
            if m['off'] <= off < m['off'] + max(m['size'], 1):
                best = m
        if best is not None:
            return (t, best)
        for b in t['bases']:
            bt = self.types.get(strip_cv(b['t']))
            if bt and b['off'] <= off < b['off'] + bt['size']:
                r = self.member_at(b['t'], off - b['off'])
                if r:
                    return r
        return None

    def all_members(self, tname):
        t = self.types.get(strip_cv(tname))
        if not t:
            return
        for b in t['bases']:
            for m in self.all_members(b['t']):
                x = dict(m)
                x['off'] += b['off']
                yield x
        for m in t['m']:
            yield m

    def bases(self, tname):
        t = self.types.get(strip_cv(tname))
        if not t:
            return
        for b in t['bases']:
            yield strip_cv(b['t'])
            for x in self.bases(b['t']):
                yield x

    def derives(self, tname, base):
        return strip_cv(tname) == base or base in set(self.bases(tname))


def strip_cv(t):
    while True:
        if t.startswith('const '):
            t = t[6:]
        elif t.startswith('volatile '):
            t = t[9:]
        else:
            return t


def struct_name(sty):
    """'%"class.pfi::concurrent::chan.12"' -> 'pfi::concurrent::chan'"""
    m = re.match(r'^%"?(?:class|struct|union)\.(.*?)"?$', sty)
    if not m:
        return None
    return re.sub(r'\.\d+$', '', m.group(1))


def template_base(name):
    """'a::b<c>::d<e>' -> 'a::b<c>::d'  (drop only the trailing template args)"""
    if not name.endswith('>'):
        return name
    depth = 0
    for i in range(len(name) - 1, -1, -1):
        if name[i] == '>':
            depth += 1
        elif name[i] == '<':
            depth -= 1
            if depth == 0:
                return name[:i]
    return name


# --------------------------------------------------------------------------
# path-sensitive exploration (property simulation)
# --------------------------------------------------------------------------
class Explorer(object):
    """Forward exploration of a function's CFG with a finite property state and
    the constants/branch decisions that correlate branches. States are merged
    when block, environment and property state coincide.

    subclass hooks:
      inst(state, i, env) -> iterable of states, or None for [state]
      call_value(i, state) -> int constant assumed for a call's result, or None
      assume(state, cond_value, taken, env) -> state or None (infeasible)
      exit(state, i, env)   at ret / resume / unreachable-after-noreturn
      unwind(state, i, env) -> state when call i throws
    """
    MAXSTATES = 60000
    MAXENV = 24
    sticky = ()           # ids whose values survive widening
    forkids = ()          # non-call instructions outcomes() is asked about as well

    def __init__(self, prog, func):
        self.prog = prog
        self.f = func
        self.nstates = 0
        self._nenv = {}
        self.truncated = False
        self._interesting = None
        self._evstack = set()
        self.env0 = {}        # values assumed for arguments

    # --- default hooks
    def init(self):
        return ()

    def inst(self, st, i, env):
        return None

    def call_value(self, i, st):
        return None

    def load_value(self, i, st):
        return None

    def outcomes(self, i, st, env):
        """alternatives [(result value or None, state)] of a call, or None"""
        return None

    def extra_relevant(self):
        return ()

    def assume(self, st, cond, taken, env):
        return st

    def assume_switch(self, st, val, case, env):
        return st

    def exit(self, st, i, env):
        pass

    def unwind(self, st, i, env):
        return st

    def throws(self, i):
        return not i.d.get('nothrow')

    # --- values
    def ev(self, v, env):
        c = self.f.const(v)
        if c is not None:
            return c
        if v == 'zero':
            return 0
        if isinstance(v, str) and v.startswith('k:{ i64 ptrtoint'):
            return 1           # a non-null member pointer (safe-bool idiom)
        if v in self._evstack:
            return None
        if not (v in env or v in self.f.defs):
            return None
        self._evstack.add(v)
        try:
            return self._ev(v, env)
        finally:
            self._evstack.discard(v)

    def _ev(self, v, env):
        if v in env:
            x = env[v]
            if isinstance(x, str):
                return self.ev(x[1:], env)
            return x
        d = self.f.defs.get(v)
        if d is None:
            return None
        if d.op in ('zext', 'freeze', 'bitcast'):
            return self.ev(d.ops[0], env)
        if d.op == 'sext':
            x = self.ev(d.ops[0], env)
            if x is not None and d.d.get('st') == 'i1':
                return -x
            return x
        if d.op == 'trunc':
            x = self.ev(d.ops[0], env)
            if x is not None and d.ty == 'i1':
                return x & 1
            if x is not None and re.match(r'i\d+$', d.ty):
                w = int(d.ty[1:])
                x &= (1 << w) - 1
                if x >> (w - 1):
                    x -= 1 << w
                return x
            return x
        if d.op == 'icmp':
            a = self.ev(d.ops[0], env)
            b = self.ev(d.ops[1], env)
            if a is None or b is None:
                return None
            return int(icmp(d.d['p'], a, b, d.d.get('st', 'i64')))
        if d.op == 'select':
            c = self.ev(d.ops[0], env)
            if c is None:
                return None
            return self.ev(d.ops[1] if c else d.ops[2], env)
        if d.op == 'xor':
            a = self.ev(d.ops[0], env)
            b = self.ev(d.ops[1], env)
            if a is not None and b is not None:
                return (a ^ b) & 1 if d.ty == 'i1' else a ^ b
        if d.op in ('and', 'or') and d.ty == 'i1':
            a = self.ev(d.ops[0], env)
            b = self.ev(d.ops[1], env)
            if d.op == 'and' and (a == 0 or b == 0):
                return 0
            if d.op == 'or' and (a == 1 or b == 1):
                return 1
            if a is not None and b is not None:
                return a & b if d.op == 'and' else a | b
        if d.op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'urem', 'srem', 'udiv', 'sdiv') and INTTY.match(d.ty):
            a = self.ev(d.ops[0], env)
            b = self.ev(d.ops[1], env)
            if a is not None and b is not None:
                return arith(d.op, a, b, int(d.ty[1:]))
            return None
        if d.op == 'extractvalue':
            x = env.get(v)
            if x is not None:
                return x
            s = self.f.defs.get(d.ops[0])
            if s is not None and s.iscall:
                return env.get(s.id)
            if s is not None and s.op in ('select', 'phi') and d.d.get('ix') == [0]:
                return self.ev(d.ops[0], env)
        return None

    def alias(self, v, env):
        n = 0
        while isinstance(env.get(v), str) and n < 20:
            v = env[v][1:]
            n += 1
        return v

    def learn(self, v, val, env):
        """record that v == val; propagate backwards through simple ops"""
        st = [(v, val)]
        while st:
            v, val = st.pop()
            if isinstance(env.get(v), str):
                st.append((env[v][1:], val))
                env[v] = val
                continue
            d = self.f.defs.get(v)
            if d is None:
                if v.startswith('a'):
                    env[v] = val
                continue
            if v in env and env[v] == val:
                continue
            env[v] = val
            if d.op in ('zext', 'freeze', 'bitcast'):
                st.append((d.ops[0], val))
            elif d.op == 'trunc' and d.ty == 'i1':
                s = self.f.defs.get(d.ops[0])
                if s is not None and s.op in ('zext', 'sext', 'phi', 'load'):
                    if s.op == 'zext' or val == 0:
                        pass
                    st.append((d.ops[0], val))
            elif d.op == 'xor' and d.ty == 'i1':
                b = self.f.const(d.ops[1])
                if b is not None:
                    st.append((d.ops[0], val ^ (b & 1)))
            elif d.op == 'icmp':
                b = self.f.const(d.ops[1])
                if b is not None:
                    if (d.d['p'] == 'eq' and val == 1) or (d.d['p'] == 'ne' and val == 0):
                        st.append((d.ops[0], b))
                    elif d.d.get('st') == 'i1' or (b == 0 and self.is_boolish(d.ops[0])):
                        # ne/eq on booleans
                        st.append((d.ops[0], 1 - b if b in (0, 1) else b))
            elif d.op == 'and' and d.ty == 'i1' and val == 1:
                st.append((d.ops[0], 1))
                st.append((d.ops[1], 1))
            elif d.op == 'or' and d.ty == 'i1' and val == 0:
                st.append((d.ops[0], 0))
                st.append((d.ops[1], 0))
            elif d.op == 'select' and d.ty == 'i1':
                c, a, b = d.ops
                ca, cb = self.f.const(a), self.f.const(b)
                if cb == 0 and val == 1:
                    st.append((c, 1)); st.append((a, 1))
                elif ca == 1 and val == 0:
                    st.append((c, 0)); st.append((b, 0))
                elif ca == 0 and val == 1:
                    st.append((c, 0)); st.append((b, 1))
                elif cb == 1 and val == 0:
                    st.append((c, 1)); st.append((a, 0))

    def resolve_cond(self, v, env):
        """look through phis whose incoming value on this path is known"""
        v = self.alias(v, env)
        w, hit = v, False
        for _ in range(12):
            d = self.f.defs.get(w)
            if d is None or not (d.op in ('trunc', 'zext', 'freeze') or d.op == 'icmp' and d.d['p'] == 'ne' and self.f.const(d.ops[1]) == 0):
                break
            x = self.alias(d.ops[0], env)
            hit = hit or x != d.ops[0]
            w = x
        d = self.f.defs.get(w)
        return w if hit and d is not None and d.ty == 'i1' else v

    def is_boolish(self, v):
        d = self.f.defs.get(v)
        if d is None:
            return False
        return d.ty == 'i1' or (d.op in ('zext',) and self.f.defs.get(d.ops[0]) is not None and self.f.defs[d.ops[0]].ty == 'i1')

    def relevant(self):
        """ids whose decided value is worth remembering: values feeding
        branches/phis/returns"""
        if self._interesting is None:
            s = set()
            work = []
            for i in self.f.insts():
                if i.op in ('br', 'switch', 'ret') and i.ops:
                    work.append(i.ops[0])
            work.extend(self.extra_relevant())
            while work:
                v = work.pop()
                if v in s or not (v.startswith('%') or v.startswith('a')):
                    continue
                s.add(v)
                d = self.f.defs.get(v)
                if d is None or d.iscall or d.op in ('load',):
                    continue
                work.extend(d.ops)
            self._interesting = s
        return self._interesting

    # --- driver
    def run(self):
        f = self.f
        rel = self.relevant()
        live = self._liveness()
        start = (0, tuple(sorted(self.env0.items())), self.init())
        seen = {start}
        work = [start]
        while work:
            self.nstates += 1
            if self.nstates > self.MAXSTATES:
                self.truncated = True
                break
            bi, envt, st = work.pop()
            env0 = dict(envt)
            outs = [(st, env0)]
            blk = f.blocks[bi]
            for i in blk[:-1]:
                nouts = []
                for (s, env) in outs:
                    if i.op == 'phi':
                        nouts.append((s, env))
                        continue
                    al = '@' + i.id
                    if i.id in env or al in env.values():
                        env = dict((k, v) for k, v in env.items() if k != i.id and v != al)
                    if i.iscall or i.op == 'load':
                        cv = self.call_value(i, s) if i.iscall else self.load_value(i, s)
                        if cv is not None:
                            env = dict(env)
                            env[i.id] = cv
                    if i.iscall or i.id in self.forkids:
                        oc = self.outcomes(i, s, env)
                        if oc is not None:
                            for val, s2 in oc:
                                e2 = dict(env)
                                if val is None:
                                    e2.pop(i.id, None)
                                else:
                                    e2[i.id] = val
                                r = self.inst(s2, i, e2)
                                for s3 in ([s2] if r is None else r):
                                    nouts.append((s3, e2))
                            continue
                    r = self.inst(s, i, env)
                    if r is None:
                        nouts.append((s, env))
                    else:
                        for s2 in r:
                            nouts.append((s2, env))
                    if i.iscall and i.d.get('noret'):
                        pass
                outs = nouts
            t = blk[-1]
            for (s, env) in outs:
                self._term(bi, t, s, env, rel, live, seen, work)
        return self

    def _push(self, bi, to, s, env, rel, live, seen, work):
        f = self.f
        env = dict(env)
        newv = {}
        for p in f.blocks[to]:
            if p.op != 'phi':
                break
            k = p.d['in'].index(bi)
            val = self.ev(p.ops[k], env)
            if val is None and p.ty in ('i1', 'i8', 'i32') and p.ops[k].startswith('%') and p.ops[k] != p.id:
                val = '@' + self.alias(p.ops[k], env)
            newv[p.id] = val
        # values redefined on re-entry of a loop are forgotten
        redef = set('@' + x for x in newv)
        for pid in newv:
            if isinstance(newv[pid], str) and self._dep(newv[pid][1:], newv):
                newv[pid] = None
        for k in list(env):
            if isinstance(env[k], str) and env[k] in redef:
                del env[k]
        for pid in newv:
            if isinstance(newv[pid], str) and newv[pid] in redef:
                newv[pid] = None
        for pid, val in newv.items():
            if val is None:
                env.pop(pid, None)
            else:
                env[pid] = val
        lv = live[to]
        envt = tuple(sorted(((k, v) for k, v in env.items() if k in rel and k in lv), key=str))
        n = (to, envt, s)
        if n not in seen:
            # widening: too many environments for one block and property state
            c = self._nenv.get((to, s), 0) + 1
            self._nenv[(to, s)] = c
            if c > self.MAXENV:
                # forget counters first, outcomes of tracked calls only if that does not suffice
                n = (to, tuple(x for x in envt if x[0] in self.sticky) if c <= 40 * self.MAXENV else (), s)
                if n in seen:
                    return
            seen.add(n)
            work.append(n)

    def _dep(self, v, phis):
        """does v, through operations ev() looks through, use one of phis?"""
        st = [v]
        seen = set()
        while st:
            x = st.pop()
            if x in phis:
                return True
            if x in seen:
                continue
            seen.add(x)
            d = self.f.defs.get(x)
            if d is None or d.iscall or d.op in ('load', 'phi'):
                continue
            st.extend(d.ops)
        return False

    def _liveness(self):
        """SSA ids used in a block or reachable from it (cheap liveness)"""
        f = self.f
        n = len(f.blocks)
        use = [set() for _ in range(n)]
        for b in range(n):
            for i in f.blocks[b]:
                for o in i.ops:
                    use[b].add(o)
                use[b].add(i.id)
        # close uses over operand chains, since ev() looks through them
        for b in range(n):
            work = list(use[b])
            while work:
                v = work.pop()
                d = f.defs.get(v)
                if d is None or d.iscall or d.op == 'load' or d.op == 'phi':
                    continue
                for o in d.ops:
                    if o not in use[b]:
                        use[b].add(o)
                        work.append(o)
        ch = True
        live = [set(u) for u in use]
        while ch:
            ch = False
            for b in reversed(f.rpo()):
                for s in f.succs(b):
                    if not live[s] <= live[b]:
                        live[b] |= live[s]
                        ch = True
        return live

    def _term(self, bi, t, s, env, rel, live, seen, work):
        f = self.f
        if t.op == 'br':
            if not t.ops:
                self._push(bi, t.d['succ'][0], s, env, rel, live, seen, work)
                return
            c = self.ev(t.ops[0], env)
            for k, val in ((0, 1), (1, 0)):
                if c is not None and (c & 1) != val:
                    continue
                e2 = dict(env)
                cond = self.resolve_cond(t.ops[0], env)
                self.learn(t.ops[0], val, e2)
                s2 = self.assume(s, cond, val, e2)
                if s2 is None:
                    continue
                self._push(bi, t.d['succ'][k], s2, e2, rel, live, seen, work)
        elif t.op == 'switch':
            v = self.ev(t.ops[0], env)
            hit = False
            for cv, to in t.d['cases']:
                cv = int(cv)
                if v is not None:
                    if v != cv:
                        continue
                    hit = True
                e2 = dict(env)
                self.learn(t.ops[0], cv, e2)
                s2 = self.assume_switch(s, t.ops[0], cv, e2)
                if s2 is not None:
                    self._push(bi, to, s2, e2, rel, live, seen, work)
            if v is None or not hit:
                s2 = self.assume_switch(s, t.ops[0], None, env)
                if s2 is not None:
                    self._push(bi, t.d['def'], s2, env, rel, live, seen, work)
        elif t.op == 'invoke':
            al = '@' + t.id
            env = dict((k, v) for k, v in env.items() if k != t.id and v != al)
            if self.throws(t):
                su = self.unwind(s, t, env)
                if su is not None:
                    self._push(bi, t.d['unwind'], su, env, rel, live, seen, work)
            cv = self.call_value(t, s)
            if cv is not None:
                env[t.id] = cv
            oc = self.outcomes(t, s, env)
            for val, s1 in (oc if oc is not None else [(env.get(t.id), s)]):
                e2 = dict(env)
                if val is None:
                    e2.pop(t.id, None)
                else:
                    e2[t.id] = val
                r = self.inst(s1, t, e2)
                for s2 in ([s1] if r is None else r):
                    self._push(bi, t.d['normal'], s2, e2, rel, live, seen, work)
        elif t.op in ('ret', 'resume', 'unreachable'):
            r = self.inst(s, t, env)
            for s2 in ([s] if r is None else r):
                self.exit(s2, t, env)


INTTY = re.compile(r'^i\d+$')


def arith(op, a, b, w):
    m = (1 << w) - 1
    ua, ub = a & m, b & m
    if op == 'add':
        r = ua + ub
    elif op == 'sub':
        r = ua - ub
    elif op == 'mul':
        r = ua * ub
    elif op == 'and':
        r = ua & ub
    elif op == 'or':
        r = ua | ub
    elif op == 'xor':
        r = ua ^ ub
    elif op == 'shl':
        r = ua << ub if ub < w else 0
    elif op == 'lshr':
        r = ua >> ub if ub < w else 0
    elif op == 'ashr':
        r = sgn(ua, w) >> min(ub, w - 1)
    elif op in ('urem', 'udiv'):
        if ub == 0:
            return None
        r = ua % ub if op == 'urem' else ua // ub
    else:
        x, y = sgn(ua, w), sgn(ub, w)
        if y == 0:
            return None
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        r = q if op == 'sdiv' else x - q * y
    r &= m
    return r if w == 1 else sgn(r, w)


def sgn(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


def icmp(p, a, b, ty='i64'):
    if p in ('ult', 'ule', 'ugt', 'uge'):
        m = re.match(r'i(\d+)$', ty)
        w = int(m.group(1)) if m else 64
        a &= (1 << w) - 1
        b &= (1 << w) - 1
    return {'eq': a == b, 'ne': a != b,
            'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
            'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[p]


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def atoms(f, v, taken, depth=0):
    """decompose the branch fact (v == taken) into comparison atoms
    [(pred, lhs, rhs)] that hold; values that are plain booleans give
    ('true'|'false', v, None)"""
    if depth > 12:
        return []
    d = f.defs.get(v)
    if d is None:
        return [('true' if taken else 'false', v, None)]
    if d.op == 'icmp':
        p = d.d['p'] if taken else NEG[d.d['p']]
        a, b = d.ops
        cb = f.const(b)
        da = f.defs.get(f.strip_casts(a))
        if cb == 0 and p in ('eq', 'ne') and da is not None and (da.ty == 'i1') :
            return atoms(f, da.id, p == 'ne', depth + 1)
        return [(p, a, b)]
    if d.op == 'xor' and f.const(d.ops[1]) is not None and d.ty == 'i1':
        return atoms(f, d.ops[0], taken ^ (f.const(d.ops[1]) & 1), depth + 1)
    if d.op in ('zext', 'sext', 'freeze'):
        return atoms(f, d.ops[0], taken, depth + 1)
    if d.op == 'trunc':
        return atoms(f, d.ops[0], taken, depth + 1)
    if d.op == 'select' and d.ty == 'i1':
        c, a, b = d.ops
        if f.const(b) == 0 and taken:
            return atoms(f, c, 1, depth + 1) + atoms(f, a, 1, depth + 1)
        if f.const(a) == 1 and not taken:
            return atoms(f, c, 0, depth + 1) + atoms(f, b, 0, depth + 1)
        if f.const(a) == 0 and taken:
            return atoms(f, c, 0, depth + 1) + atoms(f, b, 1, depth + 1)
        if f.const(b) == 1 and not taken:
            return atoms(f, c, 1, depth + 1) + atoms(f, a, 0, depth + 1)
        return []
    if d.op == 'and' and d.ty == 'i1' and taken:
        return atoms(f, d.ops[0], 1, depth + 1) + atoms(f, d.ops[1], 1, depth + 1)
    if d.op == 'or' and d.ty == 'i1' and not taken:
        return atoms(f, d.ops[0], 0, depth + 1) + atoms(f, d.ops[1], 0, depth + 1)
    return [('true' if taken else 'false', v, None)]


# --------------------------------------------------------------------------
# typed access paths
# --------------------------------------------------------------------------
def nospace(s):
    return s.replace(' ', '')


def pointee(t):
    """type a pointer / reference / smart pointer type refers to"""
    t = strip_cv(t.strip())
    if t.endswith('&&'):
        return strip_cv(t[:-2].strip())
    if t.endswith('*') or t.endswith('&'):
        return strip_cv(t[:-1].strip())
    m = re.match(r'^(?:std::__cxx11::|std::)?(?:pfi::lang::)?(?:std::)?(shared_ptr|scoped_ptr|unique_ptr|weak_ptr|__shared_ptr|auto_ptr)<(.*)>$', t)
    if m:
        return strip_cv(first_targ(m.group(2)).strip())
    return None


def first_targ(s):
    depth = 0
    for i, c in enumerate(s):
        if c in '<(':
            depth += 1
        elif c in '>)':
            depth -= 1
        elif c == ',' and depth == 0:
            return s[:i]
    return s


class Typer(object):
    """maps (root, offset) paths of a function to DI classes and members"""

    def __init__(self, prog):
        self.prog = prog
        self.bybase = {}
        for n in prog.types:
            self.bybase.setdefault(nospace(template_base(n)), []).append(n)
        self._memo = {}

    def arg_type(self, f, n):
        dt = f.d.get('ditypes') or []
        k = n + 1
        if f.args and f.args[0].get('sret'):
            k = n
        if k < len(dt) and k >= 0:
            return dt[k]
        return None

    def root_type(self, f, root, depth=0):
        key = (f.name, root)
        if key in self._memo:
            return self._memo[key]
        self._memo[key] = None
        r = self._root_type(f, root, depth)
        self._memo[key] = r
        return r

    def _root_type(self, f, root, depth):
        if depth > 8:
            return None
        if isinstance(root, str) and re.match(r'^a\d+$', root):
            if f.args and f.args[0].get('sret') and root == 'a0':
                dt = f.d.get('ditypes') or []
                return strip_cv(dt[0]) if dt else None
            t = self.arg_type(f, int(root[1:]))
            if t:
                p = pointee(t)
                if p and p in self.prog.types:
                    return p
                if p:
                    pp = pointee(p)     # const shared_ptr<T>& : the argument is the smart pointer
                    if p in self.prog.types:
                        return p
                    return p
            return None
        if isinstance(root, tuple) and root[0] == 'L':
            m = self.member(f, (root[1], root[2]), depth + 1)
            if m:
                t = m[1]['t']
                p = pointee(t)
                if p:
                    return p
            # loaded from an argument slot that is itself a smart pointer
            rt = self.root_type(f, root[1], depth + 1)
            if rt:
                p = pointee(rt)
                if p:
                    return p
        # struct types of the GEPs based on this root
        cands = {}
        for i in f.insts():
            if i.op == 'getelementptr' and f.path(i.ops[0]) == (root, 0):
                s = struct_name(i.d.get('sty', ''))
                if s:
                    for n in self.bybase.get(nospace(s), []):
                        cands[n] = cands.get(n, 0) + 1
        if isinstance(root, str) and root in f.defs and f.defs[root].op == 'alloca':
            s = struct_name(f.defs[root].d.get('aty', ''))
            if s:
                for n in self.bybase.get(nospace(s), []):
                    cands[n] = cands.get(n, 0) + 1000
        if cands:
            # prefer the instantiation related to the function's own class
            best = sorted(cands.items(), key=lambda kv: (-kv[1], kv[0] not in f.dem, kv[0]))
            return best[0][0]
        return None

    def member(self, f, path, depth=0):
        """(class name, member) for a pointer path, or None"""
        root, off = path
        t = self.root_type(f, root, depth)
        if not t:
            return None
        r = self.prog.member_at(t, off)
        if not r:
            return None
        return (r[0]['name'], r[1])

    def member_path(self, f, path, depth=0):
        """(owner root, class, member) when path lies in a member of a class"""
        m = self.member(f, path, depth)
        if not m:
            return None
        return (path[0], m[0], m[1])


# --------------------------------------------------------------------------
# finite-domain field analysis
# --------------------------------------------------------------------------
class FieldExplorer(Explorer):
    """Explorer whose property state carries abstract (constant or unknown)
    values of designated memory cells. State: (cells, trace) where cells is a
    tuple of (key, value); trace a tuple of events recorded by event()."""
    MAXTRACE = 14

    def __init__(self, prog, f, init):
        Explorer.__init__(self, prog, f)
        self.init_cells = dict(init)
        self.results = []

    # hooks ------------------------------------------------------------
    def cell(self, path):
        """key of the tracked cell at a path, or None"""
        return None

    def event(self, i, st, env):
        """event tuple recorded for instruction i, or None"""
        return None

    # ------------------------------------------------------------------
    def init(self):
        return (tuple(sorted(self.init_cells.items(), key=str)), ())

    def extra_relevant(self):
        out = []
        for i in self.f.insts():
            if i.op == 'store' and self.cell(self.f.path(i.ops[1])) is not None:
                out.append(i.ops[0])
        return out

    def get(self, st, key):
        for k, v in st[0]:
            if k == key:
                return v
        return None

    def put(self, st, key, val):
        m = dict(st[0])
        if val is None:
            m.pop(key, None)
        else:
            m[key] = val
        return (tuple(sorted(m.items(), key=str)), st[1])

    def add(self, st, ev):
        if len(st[1]) >= self.MAXTRACE:
            return st
        return (st[0], st[1] + (ev,))

    def load_value(self, i, st):
        k = self.cell(self.f.path(i.ops[0]))
        if k is None:
            return None
        return self.get(st, k)

    def inst(self, st, i, env):
        if i.op == 'store':
            k = self.cell(self.f.path(i.ops[1]))
            if k is not None:
                v = self.ev(i.ops[0], env)
                st = self.put(st, k, v)
                st = self.add(st, ('set', k, v))
        e = self.event(i, st, env)
        if e is not None:
            if isinstance(e, list):
                return [self.add(st, x) for x in e]
            st = self.add(st, e)
        return [st]

    def exit(self, st, i, env):
        v = self.ev(i.ops[0], env) if i.op == 'ret' and i.ops else None
        self.results.append((i, st, v))


class ObjExplorer(FieldExplorer):
    """FieldExplorer whose cells are all scalar members of one object (and of
    what it points to), named by their layout path from the object, so that
    every method of the class shares the naming whatever the members are called."""

    def __init__(self, prog, f, init, this='a0'):
        FieldExplorer.__init__(self, prog, f, init)
        self.this = this
        self._alias = {}
        for i in f.insts():
            if i.op == 'store' and i.ops[0] in f.defs and f.defs[i.ops[0]].iscall:
                p = f.path(i.ops[1])
                r = self.canon(p[0])
                if r is not None and p[0] not in f.defs:
                    self._alias.setdefault(i.ops[0], ('L', r, p[1]))

    def canon(self, root):
        if root == self.this:
            return 'this'
        if root in self._alias if isinstance(root, str) else False:
            return self._alias[root]
        if isinstance(root, tuple) and root[0] == 'L':
            r = self.canon(root[1])
            return None if r is None else ('L', r, root[2])
        return None

    def cell(self, path):
        r = self.canon(path[0])
        return None if r is None else (r, path[1])

    def inst(self, st, i, env):
        if i.iscall and i.callee.startswith('llvm.memset'):
            c = self.cell(self.f.path(i.ops[0]))
            n = self.ev(i.ops[2], env)
            v = self.ev(i.ops[1], env)
            if c is not None:
                m = dict((k, x) for k, x in st[0] if not (k[0] == c[0] and n is not None and c[1] <= k[1] < c[1] + n))
                st = (tuple(sorted(m.items(), key=str)), st[1])
        return FieldExplorer.inst(self, st, i, env)

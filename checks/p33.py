"""No hidden shared mutable state: calls on separate objects do not interfere."""
from pfa import *
from conc import *

RULE = '''Every writable variable with static storage duration defined by the library is written only during its own
(thread-safe) initialisation, or only through atomic instructions, or every access to it in every function happens while one
and the same static mutex is held. No library function calls a C library function that returns or advances hidden static state.'''
ASSUME = ['static initialisers of namespace-scope variables run before threads exist',
          'process-wide facilities that are shared by specification (standard streams, errno, the environment block) are out of scope',
          'a const member or const-reference parameter of a standard type does not modify the object']

# C library functions documented as MT-Unsafe because of static buffers or hidden state, with reentrant replacements
NONREENTRANT = set('''strtok localtime gmtime asctime ctime gethostbyname gethostbyaddr gethostbyname2 getservbyname getservbyport
getprotobyname inet_ntoa inet_ntoa rand srand random srandom drand48 lrand48 mrand48 erand48 strerror tmpnam tempnam ttyname getpwnam getpwuid
getgrnam getgrgid getlogin readdir hcreate hsearch ecvt fcvt gcvt l64a setlocale mblen mbtowc wctomb strsignal getmntent basename dirname crypt
std::rand std::srand std::strtok std::localtime std::gmtime std::asctime std::ctime std::strerror std::tmpnam lgamma'''.split())


def shared_global(g):
    n = g['name']
    if g.get('const') or g.get('decl') or g.get('tls'):
        return False
    if n.startswith(('_ZTV', '_ZTI', '_ZTS', '_ZTT', '_ZGV', 'llvm.', '_ZSt', '_ZNSt', '.str', '__')):
        return False
    if 'ioinit' in n or g['dem'].startswith('driver_'):
        return False
    return True


def groot(p):
    """the global a pointer path is rooted at (through variable indexing, not through loads)"""
    r = p[0]
    while isinstance(r, tuple) and r[0] == 'V':
        r = r[1]
    if isinstance(r, str) and r.startswith('g:'):
        return r[2:]
    return None


def static_init(f):
    return f.name.startswith(('_GLOBAL__sub_I', '__cxx_global_var_init', '__cxx_global_array_dtor'))


# C functions that write through these arguments
CWRITES = dict(getnameinfo=(2, 4), getaddrinfo=(3,), sprintf=(0,), snprintf=(0,), vsprintf=(0,), vsnprintf=(0,), strftime=(0,), strcpy=(0,), strncpy=(0,), strcat=(0,), strncat=(0,), stpcpy=(0,),
               memcpy=(0,), memmove=(0,), memset=(0,), recv=(1,), read=(1,), pread=(1,), fread=(0,), fgets=(0,), recvfrom=(1, 4, 5), accept=(1, 2), getsockname=(1, 2), getpeername=(1, 2), getsockopt=(3, 4),
               gettimeofday=(0, 1), clock_gettime=(1,), time=(0,), mktime=(0,), localtime_r=(1,), gmtime_r=(1,), strptime=(2,), strtol=(1,), strtoll=(1,), strtoul=(1,), strtoull=(1,), strtod=(1,),
               inet_ntop=(2,), inet_pton=(2,), inet_aton=(1,), pipe=(0,), stat=(1,), fstat=(1,), lstat=(1,), realpath=(1,), getcwd=(0,), readlink=(1,), iconv=(1, 2, 3, 4), strtok_r=(0, 2), rand_r=(0,),
               gethostname=(0,), qsort=(0,), scanf=range(1, 9), sscanf=range(2, 9), __isoc99_sscanf=range(2, 9), __isoc23_sscanf=range(2, 9), __isoc23_strtol=(1,), __isoc23_strtoll=(1,), __isoc23_strtoul=(1,))


def effect(f, i, k):
    """effect of passing a global's address as operand k of call i"""
    c = i.callee
    if c.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.invariant', '__cxa_atexit', '__cxa_guard')):
        return None
    if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
        return 'write' if k == 0 else 'read'
    if c in CWRITES and not (i.d.get('callee') or '').startswith('_Z'):
        return 'write' if k in CWRITES[c] else 'read'
    if c.split('::')[-1].startswith('~'):
        return None if static_init(f) else 'write'
    sret = i.d.get('sret')
    first = 1 if sret == 0 else 0
    name = i.d.get('callee') or ''
    if k == first:
        if re.match(r'^_ZNK', name) or std_effect(i) == 'read' or ') const' in i.dem:
            return 'read'
        if '::' not in i.callee or not name.startswith('_ZN'):
            return 'read' if 'const' in param(i.dem, 0) else 'write'
        return 'write'
    t = param(i.dem, k - first - (1 if name.startswith('_ZN') and not staticish(i) else 0))
    if t is None:
        return 'read'
    if 'const' in t or not t.rstrip().endswith(('&', '*')):
        return 'read'
    return 'write'


def staticish(i):
    return False


def param(dem, n):
    """text of the n-th parameter type of a demangled signature"""
    m = re.search(r'\((.*)\)[^()]*$', dem)
    if not m:
        return ''
    out, d, cur = [], 0, ''
    for c in m.group(1):
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    out.append(cur)
    return out[n] if 0 <= n < len(out) else ''


def region(f, g):
    """blocks between __cxa_guard_acquire and __cxa_guard_release/abort of g's guard variable"""
    guard = '_ZGV' + g[2:] if g.startswith('_Z') else None
    acq, rel = set(), set()
    for i in f.calls():
        if i.callee.startswith('__cxa_guard') and guard and groot(f.path(i.ops[0])) == guard:
            (acq if i.callee == '__cxa_guard_acquire' else rel).add(i.blk)
    out = set()
    work = list(rel)
    pr = f.preds() if callable(f.preds) else f.preds
    while work:
        b = work.pop()
        if b in out or b in acq:
            continue
        out.add(b)
        work.extend(pr[b])
    return out


class L(LockExplorer):
    def __init__(self, model, f, sites):
        LockExplorer.__init__(self, model, f)
        self.sites = sites
        self.locks = {}

    def on_inst(self, st, i, env):
        for g, eff in self.sites.get(i.id, ()):
            held = set(groot(l) for l, n in st[0] if groot(l))
            k = (i.id, g)
            self.locks[k] = held if k not in self.locks else self.locks[k] & held
        return st


def check(ctx):
    prog = ctx.prog('all')
    model = Model(prog)
    cand = dict((n, g) for n, g in prog.globals.items() if shared_global(g))
    acc = {}
    funcs = [f for f in prog.funcs if f.isrepo] if hasattr(prog.funcs[0], 'isrepo') else list(prog.funcs)
    nf = 0
    for f in funcs:
        nf += 1
        if static_init(f):
            continue
        sites = {}
        regions = {}
        for i in f.insts():
            hits = []
            if i.op == 'load':
                hits = [(groot(f.path(i.ops[0])), 'read')]
            elif i.op == 'store':
                hits = [(groot(f.path(i.ops[1])), 'write'), (groot(f.path(i.ops[0])), 'escape')]
            elif i.op in ('atomicrmw', 'cmpxchg'):
                hits = [(groot(f.path(i.ops[0])), 'atomic')]
            elif i.iscall:
                if i.callee in NONREENTRANT and not i.dem.startswith('pfi::'):
                    ctx.bad('non-reentrant', f, i.where(), 'calls %s, which keeps its result in hidden static state shared by all threads' % i.callee)
                for k, o in enumerate(i.ops):
                    if isptr(o) or str(o).startswith(('g:', 'ce:')):
                        g = groot(f.path(o))
                        if g in cand:
                            e = effect(f, i, k)
                            if e:
                                hits.append((g, e))
                if event(f, i) is not None:
                    hits = []
            for g, e in hits:
                if g in cand and e != 'escape':
                    if i.op in ('load', 'store') and i.d.get('atomic'):
                        e = 'atomic'
                    if g not in regions:
                        regions[g] = region(f, g)
                    if i.blk in regions[g] and e != 'read':
                        continue
                    sites.setdefault(i.id, []).append((g, e))
        if not sites:
            continue
        byid = dict((i.id, i) for i in f.insts())
        ex = L(model, f, sites)
        ex.run()
        for k, l in sites.items():
            for g, e in l:
                acc.setdefault(g, []).append((f, byid[k], e, ex.locks.get((k, g), None)))
    ctx.count('functions_analysed', nf)
    ctx.need('writable_static_variables', len(cand), 10)
    for g in sorted(cand):
        l = acc.get(g, [])
        dem = cand[g]['dem']
        if is_mutex_global(cand[g]):
            continue
        writes = [x for x in l if x[2] == 'write']
        ctx.ob('%d accesses, %d writes outside initialisation' % (len(l), len(writes)), dem)
        if not writes:
            continue
        live = [x for x in l if x[3] is not None and x[2] != 'atomic']
        common = None
        for f, i, e, held in live:
            common = set(held) if common is None else common & held
        if common:
            continue
        lockcount = {}
        for x in live:
            for m in x[3]:
                lockcount[m] = lockcount.get(m, 0) + 1
        best = max(lockcount, key=lockcount.get) if lockcount else None
        off = [x for x in live if best is None or best not in x[3]]
        off.sort(key=lambda x: x[2] != 'write')
        f, i, e, held = off[0]
        ctx.bad('shared-state', f, i.where(), '%s of the static variable %s, which every caller in every thread shares, without a lock common to all its accesses' % (e, dem))


def is_mutex_global(g):
    return bool(re.search(r'pfi::concurrent::(r_)?mutex|std::(recursive_)?mutex|rw_mutex', g.get('t', '')))

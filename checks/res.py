"""Resource ownership: handles acquired from the system are tracked as abstract
values through locals, members and calls."""
import re
from pfa import *

# acquire: callee -> (kind, failure value, out-parameter index or None)
ACQ = {
    'open': ('fd', -1, None), 'open64': ('fd', -1, None), 'socket': ('fd', -1, None), 'accept': ('fd', -1, None), 'accept4': ('fd', -1, None),
    'mkstemp64': ('fd', -1, None), 'mkstemp': ('fd', -1, None), 'dup': ('fd', -1, None), 'creat': ('fd', -1, None),
    'mmap': ('map', -1, None), 'mmap64': ('map', -1, None),
    'malloc': ('heap', 0, None), 'calloc': ('heap', 0, None), 'strdup': ('heap', 0, None),
    'operatornew[]': ('array', None, None),
    'fopen': ('file', 0, None), 'fopen64': ('file', 0, None), 'fdopen': ('file', 0, None), 'popen': ('pipe', 0, None), 'opendir': ('dir', 0, None),
    'PQprepare': ('pgresult', None, None), 'PQexec': ('pgresult', None, None), 'PQexecPrepared': ('pgresult', None, None), 'PQexecParams': ('pgresult', None, None),
    'PQconnectdb': ('pgconn', 0, None), 'mysql_stmt_init': ('mystmt', 0, None), 'mysql_init': ('mysql', 0, None),
    'mysql_stmt_result_metadata': ('myres', 0, None),
    'getaddrinfo': ('addrinfo', None, 3),
}
REL = {
    'close': ('fd', 0), 'munmap': ('map', 0), 'free': ('heap', 0), 'operatordelete[]': ('array', 0), 'fclose': ('file', 0), 'pclose': ('pipe', 0),
    'closedir': ('dir', 0), 'PQclear': ('pgresult', 0), 'PQfinish': ('pgconn', 0), 'mysql_close': ('mysql', 0), 'mysql_stmt_close': ('mystmt', 0),
    'mysql_free_result': ('myres', 0), 'freeaddrinfo': ('addrinfo', 0),
}
FD_USERS = set('recv send connect bind listen accept setsockopt getsockname fstat64 fstat mmap64 mmap read write shutdown ftruncate'.split())
BASE = 1 << 24
NOESC = re.compile(r'^std::(basic_)?(istream|ostream|fstream|ifstream|ofstream|copy|fill|__cxx11::basic_string|vector|operator)')


def may_throw(prog, dem, depth=0):
    """does the function throw explicitly (memory exhaustion aside)?"""
    memo = prog.__dict__.setdefault('_maythrow', {})
    if dem in memo:
        return memo[dem]
    memo[dem] = False
    f = prog.by_dem.get(dem)
    r = False
    if f is None:
        r = True
    else:
        for i in f.calls():
            c = i.callee
            if c in ('__cxa_throw', '__cxa_rethrow') or c.startswith('std::function::operator()') or (not c and not i.d.get('asm')):
                r = True
            elif c.startswith('pfi::') and not i.d.get('nothrow') and may_throw(prog, i.dem, depth + 1):
                r = True
            if r:
                break
    memo[dem] = r
    return r


class ResExplorer(ObjExplorer):
    """state cells: object members, address-taken locals, and ('#', handle) -> 1 for live handles"""

    def __init__(self, prog, f, init, report, others=()):
        self.others = others
        ObjExplorer.__init__(self, prog, f, init)
        self.report = report
        self.vt = {}
        self.sites = [i for i in f.calls() if i.callee in ACQ]
        self.nacq = 0

    def canon(self, root):
        if root in self.others:
            return 'other'
        r = ObjExplorer.canon(self, root)
        if r is not None:
            return r
        if isinstance(root, str) and root in self.f.defs and self.f.defs[root].op == 'alloca':
            return root
        if isinstance(root, tuple) and root[0] == 'L' and isinstance(root[1], str) and root[1] in self.f.defs:
            return None
        return None

    def extra_relevant(self):
        out = list(ObjExplorer.extra_relevant(self))
        acq = set(i.id for i in self.f.calls() if i.callee in ACQ)
        out.extend(acq)
        for i in self.f.insts():
            if i.iscall and i.callee in REL:
                out.extend(i.ops)
            elif i.op in ('phi', 'select') and any(o in acq for o in i.ops):
                out.append(i.id)
        return out

    # only handles and small constants are kept
    def put(self, st, key, val):
        if val is not None and not (-2 <= val <= 2 or val >= BASE) and key[0] != '#':
            val = None
        return ObjExplorer.put(self, st, key, val)

    def add(self, st, ev):
        return st

    def live(self, st, kind=None):
        return [k[1] for k, v in st[0] if k[0] == '#' and (kind is None or k[2] == kind)]

    def liveset(self, st):
        return dict((k[1], k[2]) for k, v in st[0] if k[0] == '#')

    def leaked(self, st):
        return dict((k[1], k[2]) for k, v in st[0] if k[0] == '#' and v == 1)

    def fresh(self, i, st):
        n = b = BASE + 4096 * (1024 + self.key(i))
        alive = set(k[1] for k, v in st[0] if k[0] == '#')
        while n in alive:
            n += 16
            if n - b > 160:
                return None
        return n

    def key(self, i):
        # stable per (callee, ordinal in function), distinct per function
        import zlib
        return zlib.crc32(('%s|%s|%d' % (self.f.dem, i.callee, self.sites.index(i))).encode()) % 200000

    def outcomes(self, i, st, env):
        c = i.callee
        if c in ACQ:
            kind, fail, out = ACQ[c]
            h = self.fresh(i, st)
            self.nacq += 1
            if h is None:
                self.report(self.f, i, 'leak', '%s in a loop: handles accumulate without being released' % c)
                return [(fail, st)]
            ok = self.put(st, ('#', h, kind), 1)
            if out is not None:
                cell = self.cell(self.f.path(i.ops[out]))
                if cell is None:
                    return None
                return [(0, self.put(ok, cell, h)), (-2, st)]
            # the handle seen by tests is a large positive number / non-null pointer
            r = [(h, ok)]
            if fail is not None:
                r.append((fail, st))
            return r
        if c == 'mysql_real_connect':
            v = self.ev(i.ops[0], env)
            return [(v, st), (0, st)]
        if c == 'realloc':
            v = self.ev(i.ops[0], env)
            if v is not None and ('#', v, 'heap') in dict(st[0]):
                return [(v, st)]
            return None
        if c in REL:
            kind, k = REL[c]
            v = self.ev(i.ops[k], env)
            if v is None:
                # unknown value: it may be any live handle of this kind, about which nothing is then known
                for h in self.live(st, kind):
                    st = ObjExplorer.put(self, st, ('#', h, kind), 2)
                return [(None, st)]
            if v < BASE:
                return [(None, st)]
            if ('#', v, kind) in dict(st[0]):
                st = ObjExplorer.put(self, st, ('#', v, kind), None)
                return [(0, st), (-1, st)] if kind == 'fd' else [(None, st)]
            other = [kk for hh, kk in self.liveset(st).items() if hh == v]
            if other:
                self.report(self.f, i, 'wrong-release', 'a %s handle is released with %s' % (other[0], c))
                return [(None, ObjExplorer.put(self, st, ('#', v, other[0]), None))]
            self.report(self.f, i, 'double-release', '%s is called on a handle already released' % c)
            return [(None, st)]
        if c in FD_USERS and i.ops:
            k = 4 if c.startswith('mmap') else 0
            v = self.ev(i.ops[k], env)
            if v is not None and v >= BASE and ('#', v, 'fd') not in dict(st[0]):
                self.report(self.f, i, 'use-after-release', '%s is called on a closed descriptor' % c)
        return None

    def load_value(self, i, st):
        p = self.f.path(i.ops[0])
        d = self.f.defs.get(p[0]) if isinstance(p[0], str) else None
        if d is not None and d.iscall and d.callee == '__errno_location':
            return 5
        return ObjExplorer.load_value(self, i, st)

    def throws(self, i):
        c = i.callee
        if i.d.get('nothrow'):
            return False
        if c in ('__cxa_throw', '__cxa_rethrow', '_Unwind_Resume'):
            return True
        if not c:
            return True
        return c.startswith('std::function') or (c.startswith('pfi::') and may_throw(self.prog, i.dem))

    def unwind(self, st, i, env):
        # a handle handed to a constructor/function is that function's business even if it throws
        for s2 in self.handover(st, i, env):
            return s2

    def inst(self, st, i, env):
        # a live handle that flows into memory we do not track, or into a call that may keep it, has escaped
        if i.op == 'store':
            v = self.ev(i.ops[0], env)
            if v is not None and v >= BASE and self.cell(self.f.path(i.ops[1])) is None:
                for h, k in self.liveset(st).items():
                    if h == v:
                        st = ObjExplorer.put(self, st, ('#', h, k), 2)
        else:
            for st in self.handover(st, i, env):
                pass
        return ObjExplorer.inst(self, st, i, env)

    def handover(self, st, i, env):
        if i.iscall and i.callee not in ACQ and i.callee not in REL and ('::' in i.callee or not i.callee or i.callee.startswith('operator')):
            ls = self.liveset(st)
            if ls:
                for o in i.ops:
                    v = self.ev(o, env)
                    if v in ls and not NOESC.match(i.callee):
                        st = ObjExplorer.put(self, st, ('#', v, ls[v]), 2)
                    # address of a cell holding a handle handed to an unknown function
                    if isptr(o):
                        c = self.cell(self.f.path(o))
                        if c is not None and c in dict(st[0]) and dict(st[0])[c] in ls and c[0] not in ('this', 'other') and not NOESC.match(i.callee):
                            st = ObjExplorer.put(self, st, ('#', dict(st[0])[c], ls[dict(st[0])[c]]), 2)
        return [st]

    def exit(self, st, i, env):
        if i.op == 'unreachable':
            blk = self.f.blocks[i.blk]
            if not any(x.iscall and x.callee in ('__cxa_throw', '__cxa_rethrow') for x in blk):
                return
        v = self.ev(i.ops[0], env) if i.op == 'ret' and i.ops else None
        self.results.append((i, st, v))

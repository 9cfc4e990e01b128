"""Transactions and the propagation of database errors."""
import re
from pfa import *
from trace import *

RULE = '''Guard: constructing the transaction guard begins a transaction exactly once; destroying it calls rollback once (and not commit)
when an exception is propagating and commit once (and not rollback) otherwise; a commit failure can leave the destructor. Backends:
begin_transaction, commit and rollback send BEGIN, COMMIT and ROLLBACK. On every path through every function of the MySQL and
PostgreSQL layers that returns normally, the last outcome of each client-library call that can fail was success (or, for the function
that returns an error code, the code returned is zero exactly then); fetch_row returns false exactly at the end of the rows. Values
are bound only when their number is the number of parameters of the statement.'''
ASSUME = ['client libraries report failures as documented', 'destructors may discard errors of their final ROLLBACK']
DB = 'pfi::database::'
# call -> (success values, failure values)
ZERO = ([0], [1])
PTR = ([1], [0])
API = {'mysql_init': PTR, 'mysql_real_connect': PTR, 'mysql_query': ZERO, 'mysql_real_query': ZERO, 'mysql_stmt_init': PTR, 'mysql_stmt_prepare': ZERO,
       'mysql_stmt_bind_param': ZERO, 'mysql_stmt_execute': ZERO, 'mysql_stmt_bind_result': ZERO, 'mysql_stmt_fetch_column': ZERO, 'mysql_fetch_fields': PTR,
       'PQconnectdb': PTR}
STATUS = {0: 'empty query', 1: 'command ok', 2: 'tuples ok', 5: 'bad response', 7: 'fatal error'}


class Db(Trace):
    LIM = 40

    def forking(self, i):
        c = i.callee
        return Trace.forking(self, i) or c in API or c in ('mysql_errno', 'mysql_stmt_errno', 'mysql_stmt_fetch', 'PQstatus', 'PQresultStatus', 'PQprepare', 'PQexecPrepared', 'PQexec', 'PQexecParams') or c == DB + 'mysql::mysql_connection::query'

    def __init__(self, prog, f):
        self.sizecmp = {}
        for i in f.insts():
            if i.op == 'icmp' and i.d.get('p') in ('eq', 'ne'):
                k = [self.kind(f, o) for o in i.ops]
                if sorted(k, key=str) == ['count', 'size']:
                    self.sizecmp[i.id] = 1 if i.d['p'] == 'eq' else 0
        self.forkids = set(self.sizecmp)
        Trace.__init__(self, prog, f)
        self.forks += list(self.sizecmp)
        self.forkids = set(self.sizecmp) | set(self.sel)
        stored = set(f.path(i.ops[1]) for i in f.insts() if i.op == 'store')
        self.loads = [i.id for i in f.insts() if i.op == 'load' and f.path(i.ops[0]) in stored]

    def kind(self, f, o):
        d = f.defs.get(f.strip_casts(o))
        if d is None:
            return None
        if d.iscall and d.callee == 'std::vector::size':
            return 'size'
        if d.op == 'load' and f.path(d.ops[0])[0] == 'a0':
            return 'count'
        if d.iscall and d.callee == 'mysql_stmt_param_count':
            return 'count'
        return None

    def event(self, i, facts, env):
        c = i.callee
        if i.id in self.sizecmp:
            eq = self.sizecmp[i.id]
            return [(eq, [('sizeeq',)]), (1 - eq, [('sizene',)])]
        if c in API:
            ok, bad = API[c]
            return [(v, [('ok', c)]) for v in ok] + [(v, [('fail', c)]) for v in bad]
        if c == DB + 'mysql::mysql_connection::query':
            return [(0, [('ok', 'query')]), (1, [('fail', 'query')])]
        if c in ('mysql_errno', 'mysql_stmt_errno'):
            return [(v, []) for v in (2006, 2013, 1064)]
        if c == 'mysql_stmt_fetch':
            return [(0, [('ok', c)]), (101, [('ok', c)]), (1, [('fail', c)]), (100, [('nodata',)])]
        if c in ('PQprepare', 'PQexecPrepared', 'PQexec', 'PQexecParams'):
            return [(0, [('fail', c)]), (1, [('pq', c)])]
        if c == 'PQstatus':
            last = [e for e in self.cur if e[0] == 'conn' or e[0] == 'reset']
            if last and last[-1][0] == 'conn':
                return [(last[-1][1], [])]
            return [(0, [('conn', 0)]), (1, [('conn', 1)])]
        if c == 'PQreset':
            return [(None, [('reset',)])]
        if not c and 'cv' in i.d:
            return [(None, [('ok', 'an operation of the statement')])]
        if c == 'PQresultStatus':
            k = [n for n, e in enumerate(self.cur) if e[0] == 'pq' or (e[0] == 'fail' and e[1].startswith('PQ'))]
            if not k:
                return None
            if self.cur[k[-1]][0] == 'fail':
                return [(7, [])]
            st = [e for e in self.cur[k[-1]:] if e[0] == 'status']
            if st:
                return [(st[-1][1], [])]
            return [(v, [('status', v)]) for v in STATUS]
        return None

    def outcomes(self, i, st, env):
        self.cur = st[1]
        return Trace.outcomes(self, i, st, env)

    def add(self, st, evs):
        # keep the last outcome of every call only
        for e in evs:
            t = st[1]
            if e[0] in ('ok', 'fail'):
                t = tuple(x for x in t if not (x[0] in ('ok', 'fail') and x[1] == e[1]))
            if e[0] in ('pq',) or (e[0] == 'fail' and e[1].startswith('PQ')):
                t = tuple(x for x in t if x[0] not in ('status', 'pq'))
            if e in t:
                t = tuple(x for x in t if x != e)
            st = (st[0], t + (e,))
        return st

    def load_value(self, i, st):
        return dict(st[0]).get(('mem', self.f.path(i.ops[0])))

    def extra_relevant(self):
        return self.forks + self.loads

    def inst(self, st, i, env):
        """results of fallible calls kept in memory"""
        if i.op == 'store':
            p = self.f.path(i.ops[1])
            facts = dict(st[0])
            d = self.f.defs.get(i.ops[0])
            v = self.ev(i.ops[0], env) if (d is not None and d.iscall and self.forking(d)) or i.ops[0] == 'null' else None
            if v is not None:
                facts[('mem', p)] = v
            elif ('mem', p) in facts:
                del facts[('mem', p)]
            else:
                return None
            return [(tuple(sorted(facts.items(), key=str)), st[1])]
        return None

    def unwind(self, st, i, env):
        st = thrown(st, i)
        if not i.callee and 'cv' in i.d:
            st = self.add(st, [('fail', 'an operation of the statement')])
        return st

    def throws(self, i):
        # failures of the client library are return values; std exceptions just propagate
        return i.callee in ('__cxa_throw', '__cxa_rethrow') or (bool(i.callee) and i.callee.startswith(DB)) or (not i.callee and 'cv' in i.d)


def slots(prog, cls):
    """vtable offset -> function name"""
    for g in prog.globals.values():
        if g.get('dem') == 'vtable for ' + cls and g.get('agg'):
            tab = g['agg'][0] if isinstance(g['agg'][0], list) else g['agg']
            return dict(((k - 2) * 8, x[2:] if x.startswith('g:') else x) for k, x in enumerate(tab))
    return {}


class Guard(Trace):
    def __init__(self, prog, f, names):
        self.names = names
        self.uncaught = None
        Trace.__init__(self, prog, f)

    def event(self, i, facts, env):
        if i.callee in ('std::uncaught_exception', 'std::uncaught_exceptions'):
            return [(1, [('unwinding',)]), (0, [('normal',)])]
        if not i.callee and 'cv' in i.d:
            d = self.f.defs.get(i.d['cv'])
            off = None
            if d is not None and d.op == 'load':
                off = self.f.path(d.ops[0])[1]
            return [(None, [('v', self.names.get(off, '?'))])]
        return None

    def forking(self, i):
        return i.callee in ('std::uncaught_exception', 'std::uncaught_exceptions')

    def throws(self, i):
        return False


def check(ctx):
    prog = ctx.prog('db')
    # -- guard
    names = {}
    for off, m in slots(prog, DB + 'mysql::mysql_connection').items():
        x = re.search(r'mysql_connection\d*?(begin_transaction|commit|rollback)', m)
        if x:
            names[off] = x.group(1)
    if sorted(names.values()) != ['begin_transaction', 'commit', 'rollback']:
        raise AnchorLost('virtual transaction operations (%s)' % names)
    n = 0
    for f in sorted(prog.by_dem.values(), key=lambda f: f.dem):
        m = re.match(r'^pfi::database::committer::(~?)committer$', f.short)
        if not m or f.file.startswith('/'):
            continue
        w = '%s:%d' % (f.file, f.line)
        e = Guard(prog, f, names)
        e.run()
        n += 1
        seen = set()
        for i, facts, tr, env in e.results:
            if i.op != 'ret':
                continue
            vs = [x[1] for x in tr if x[0] == 'v']
            un = ('unwinding',) in tr
            if m.group(1):
                seen.add(un)
                want = ['rollback'] if un else ['commit']
                if not un and ('normal',) not in tr and vs != ['commit']:
                    want = None
                if vs != want:
                    ctx.bad('guard', f, i.where(), 'leaving a transaction block %s calls %s' % ('by an exception' if un else 'normally', vs))
            elif vs != ['begin_transaction']:
                ctx.bad('guard', f, i.where(), 'entering a transaction block calls %s' % vs)
        if m.group(1) and seen != set([True, False]):
            ctx.bad('guard', f, w, 'the end of a transaction block does not distinguish leaving by an exception')
        if m.group(1):
            ctx.ob('a failing commit can be reported by the guard', w)
            for i in f.calls():
                if not i.callee and 'cv' in i.d:
                    d = f.defs.get(i.d['cv'])
                    off = f.path(d.ops[0])[1] if d is not None and d.op == 'load' else None
                    t = f.blocks[i.d['unwind']] if i.op == 'invoke' else []
                    if names.get(off) == 'commit' and any(x.iscall and x.callee in ('__clang_call_terminate', 'std::terminate', '__cxa_begin_catch') for x in t):
                        ctx.bad('guard', f, i.where(), 'a failing commit at the end of a transaction block terminates the program or is swallowed')
        ctx.ob('transaction guard %s' % f.short, w)
    ctx.need('guard_functions', n, 2)
    # -- statements sent
    k = 0
    for f in sorted(prog.by_dem.values(), key=lambda f: f.dem):
        m = re.match(r'^pfi::database::(mysql::mysql|postgresql::postgresql)_connection::(begin_transaction|commit|rollback)$', f.short)
        if m:
            k += 1
            want = {'begin_transaction': ('BEGIN', 'START TRANSACTION'), 'commit': ('COMMIT',), 'rollback': ('ROLLBACK',)}[m.group(2)]
            lits = [cstr(prog, i.ops[1], f) for i in f.calls() if i.callee == 'std::__cxx11::basic_string::basic_string' and len(i.ops) > 1]
            lits = [x for x in lits if x is not None and x.upper() == x and x.strip()]
            ctx.ob('%s sends %s' % (f.short, lits), '%s:%d' % (f.file, f.line))
            if not lits or any(x.strip(' ;') not in want for x in lits):
                ctx.bad('transaction-statement', f, '%s:%d' % (f.file, f.line), '%s sends %s' % (m.group(2), lits))
    ctx.need('transaction_statements', k, 6)
    # -- errors
    fn = calls = 0
    interesting = set(API) | set(['mysql_stmt_fetch', 'PQprepare', 'PQexecPrepared', 'PQstatus', DB + 'mysql::mysql_connection::query'])
    for f in sorted(prog.by_dem.values(), key=lambda f: f.dem):
        if not f.short.startswith(DB) or f.file.startswith('/'):
            continue
        cs = [i for i in f.calls() if i.callee in interesting]
        if not cs or '::~' in f.short:
            continue
        if f.acc == 'private' and f.d.get('ncallers'):
            pass
        e = Db(prog, f)
        e.run()
        if e.truncated or e.overlong:
            raise AnchorLost('%s: too many paths' % f.short)
        fn += 1
        calls += len(cs)
        code = any(i.callee in ('mysql_query', 'mysql_real_query') for i in cs) and (f.d.get('ditypes') or ['void'])[0] in ('int', 'unsigned int', 'bool')
        fetch = any(i.callee == 'mysql_stmt_fetch' for i in cs)
        rets = 0
        for i, facts, tr, env in e.results:
            if i.op != 'ret':
                continue
            rets += 1
            b = lambda msg: ctx.bad('error-propagation', f, i.where(), msg)
            val = e.ev(i.ops[0], env) if i.ops else None
            fails = [x[1] for x in tr if x[0] == 'fail']
            if code:
                q = [x for x in tr if x[1:] in (('mysql_query',), ('mysql_real_query',))]
                rest = [x for x in fails if not x.endswith('_query')]
                if rest:
                    b('returns normally although %s failed' % rest[0])
                if q and q[-1][0] == 'fail' and val == 0:
                    b('returns 0 although %s failed' % q[-1][1])
                if q and q[-1][0] == 'ok' and val not in (0, None):
                    b('returns an error code although %s succeeded' % q[-1][1])
                if not q:
                    b('returns without having sent the query')
                continue
            if fails:
                b('returns normally although %s failed' % fails[-1])
            if ('pq', 'PQprepare') in tr or ('pq', 'PQexecPrepared') in tr or ('pq', 'PQexec') in tr:
                st = [x[1] for x in tr if x[0] == 'status']
                okset = (1,) if ('pq', 'PQprepare') in tr else (1, 2)
                if not st or st[-1] not in okset:
                    b('returns normally although the server answered "%s"' % (STATUS[st[-1]] if st else 'unexamined'))
            if any(x[0] == 'conn' for x in tr):
                cn = [x for x in tr if x[0] in ('conn', 'reset')][-1]
                if cn != ('conn', 0):
                    b('returns normally although the connection is not established')
            if fetch:
                if ('nodata',) in tr and val != 0:
                    b('does not return false at the end of the rows')
                if ('nodata',) not in tr and val != 1:
                    b('does not return true although a row was fetched (%s)' % val)
            if ('ok', 'mysql_stmt_bind_param') in tr and ('sizeeq',) not in tr:
                b('binds values although their number was not found to be the number of parameters')
        if not rets:
            ctx.bad('error-propagation', f, '%s:%d' % (f.file, f.line), 'never returns normally')
        ctx.ob('%s: %d client-library calls' % (f.short, len(cs)), '%s:%d' % (f.file, f.line), len(cs))
    ctx.need('functions', fn, 12)
    ctx.need('fallible_calls', calls, 20)

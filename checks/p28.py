"""Positional binding and row fetching of every arity, instantiated with pairwise distinct opaque value types."""
import re
from pfa import *
from trace import *

RULE = '''Binding (execute, run; 0 to 10 values): on every path that returns normally the backend operation is called exactly once, with
a list of exactly n values of which the k-th is made from the k-th argument; its result is returned; no element outside the list is
accessed. Fetching (fetch_row; 1 to 10 targets): the backend is asked for one row; without one, false is returned and no target
assigned; for a row of any other number of columns than n an exception leaves and no target is assigned (checked for every row
length from 0 to 12); otherwise target k is assigned, once, from column k converted with the type of target k, and true is returned.
Conversion of a bound value (NULL included) keeps its kind in the MySQL and PostgreSQL layers: a missing value is bound as NULL.'''
ASSUME = ['std::vector and shared_ptr behave as specified', 'user-supplied to_sql/from_sql conversions do what they say']
SQLV = 'pfi::database::sql_value'


def vk(dem):
    m = re.search(r'drv::V<(\d+)>', dem)
    return int(m.group(1)) if m else None


class Bind(Trace):
    row = None        # assumed row length

    def const(self, v, env):
        return self.ev(v, env)

    def note(self, i, facts, env):
        f = self.f
        c = i.callee
        out = []
        if c == 'std::vector::vector' and SQLV in i.dem:
            n = 0
            if len(i.ops) > 1:
                n = self.const(i.ops[1], env)
                if n is None and not i.ops[1].startswith('c:'):
                    return self.copyvec(i, facts)
            return [(('size', f.path(i.ops[0])), n)]
        if c.startswith('std::vector::') and SQLV in i.dem:
            m = c[13:]
            p = f.path(i.ops[0])
            if m == 'resize':
                return [(('size', p), self.const(i.ops[1], env))]
            if m in ('push_back', 'emplace_back'):
                n = facts.get(('size', p))
                src = facts.get(('val', f.path(i.ops[1])))
                if n is None:
                    return [(('oob', p), 'unknown size')]
                return [(('size', p), n + 1), (('el', p, n), src)]
            if m in ('operator[]', 'at', 'front', 'back'):
                k = self.const(i.ops[1], env) if len(i.ops) > 1 else (0 if m == 'front' else None)
                n = facts.get(('size', p))
                r = [(('ref', (i.id, 0)), (p, k))]
                if n is None or k is None or not 0 <= k < n:
                    r.append((('oob', p), 'element %s of a list of %s' % (k, n)))
                return r
        if re.search(r'\bto_sql$', c) and 'sret' in i.d:
            k = vk(i.dem)
            return [(('val', f.path(i.ops[0])), (k, self.argof(f.path(i.ops[1]), facts)))]
        if c in ('std::shared_ptr::operator=', 'std::__shared_ptr::operator=', 'std::shared_ptr::shared_ptr', 'std::shared_ptr::swap') and len(i.ops) == 2:
            dst = f.path(i.ops[0])
            src = f.path(i.ops[1])
            val = facts.get(('val', src))
            if ('ref', src) in facts:
                p, k = facts[('ref', src)]
                val = facts.get(('el', p, k), ('col', p, k))
            if ('ref', dst) in facts and c != 'std::shared_ptr::shared_ptr':
                p, k = facts[('ref', dst)]
                return [(('el', p, k), val)]
            return [(('val', dst), val)]
        if re.match(r'^drv::V(<\d+>)?::V$', c) and len(i.ops) == 2:
            return [(('cp', f.path(i.ops[0])), self.argof(f.path(i.ops[1]), facts))]
        if c == 'pfi::database::from_sql' and 'sret' in i.d:
            src = f.path(i.ops[1])
            col = facts.get(('ref', src)) or facts.get(('val', src))
            return [(('conv', f.path(i.ops[0])), (vk(i.dem.split('from_sql<')[0]), col))]
        return out

    def copyvec(self, i, facts):
        return ()

    def argof(self, p, facts):
        return facts.get(('cp', p), p)

    def event(self, i, facts, env):
        f = self.f
        c = i.callee
        if not c and 'cv' in i.d:
            vec = [f.path(o) for o in i.ops if ('size', f.path(o)) in facts]
            if self.row is None:
                n = facts.get(('size', vec[0])) if vec else None
                els = tuple(facts.get(('el', vec[0], k)) for k in range(n or 0)) if vec else ()
                return [(None, [('call', i.id, n, els, tuple(f.path(o) for o in i.ops))])]
            return [(1, [('row', vec[0] if vec else None)]), (0, [('norow',)])]
        if c == 'std::vector::size' and SQLV in i.dem:
            n = facts.get(('size', f.path(i.ops[0])))
            return [(n, [])]
        if c == 'std::vector::empty' and SQLV in i.dem:
            n = facts.get(('size', f.path(i.ops[0])))
            return [(None if n is None else int(n == 0), [])]
        if re.match(r'^drv::V(<\d+>)?::operator=$', c):
            dst = f.path(i.ops[0])
            return [(None, [('set', vk(i.dem), dst, facts.get(('conv', f.path(i.ops[1]))))])]
        if c == '__cxa_throw':
            return [(None, [('throw',)])]
        return None

    def outcomes(self, i, st, env):
        r = Trace.outcomes(self, i, st, env)
        if self.row is not None and not i.callee and 'cv' in i.d and r:
            out = []
            for v, s in r:
                if v == 1:
                    facts = dict(s[0])
                    for o in i.ops:
                        p = self.f.path(o)
                        if ('size', p) in facts:
                            facts[('size', p)] = self.row
                    s = (tuple(sorted(facts.items(), key=str)), s[1])
                out.append((v, s))
            return out
        return r

    def forking(self, i):
        return Trace.forking(self, i) or (i.callee in ('std::vector::size', 'std::vector::empty')) or (not i.callee and 'cv' in i.d) or i.callee.startswith('std::vector::')

    def throws(self, i):
        return i.callee == '__cxa_throw'      # other exceptions leave without having called the backend or are its own

    def unwind(self, st, i, env):
        return self.add(st, [('throw',)])


def check(ctx):
    import build
    try:
        prog = ctx.prog('db')
    except build.DriverFailed as e:
        ctx.ob('binding and fetching of all arities type-check with pairwise distinct value types')
        ctx.bad('type-witness', 'statement/connection', 'drivers/db.cpp', 'an overload of some arity does not type-check with distinct value types:\n' + str(e)[:800])
        return
    n = dict(execute=0, run=0, fetch_row=0)
    for f in sorted(prog.by_dem.values(), key=lambda f: f.dem):
        m = re.match(r'^pfi::database::(statement|connection)::(\w+)$', f.short)
        if not m or f.file.startswith('/'):
            continue
        ty = (f.d.get('ditypes') or [])[1:]
        vs = [(k, int(x.group(1))) for k, x in ((k, re.match(r'^drv::V<(\d+)>', t)) for k, t in enumerate(ty)) if x]
        if m.group(2) in ('execute', 'run') and (vs or (len(ty) == (1 if m.group(2) == 'execute' else 2) and any(not i.callee and 'cv' in i.d for i in f.calls()))):
            if not any(not i.callee and 'cv' in i.d for i in f.calls()) and not vs:
                continue
            n[m.group(2)] += 1
            binding(ctx, prog, f, vs)
        elif m.group(2) == 'fetch_row' and vs:
            n['fetch_row'] += 1
            fetching(ctx, prog, f, vs)
    ctx.need('execute', n['execute'], 11)
    ctx.need('run', n['run'], 11)
    ctx.need('fetch_row', n['fetch_row'], 10)
    nullbind(ctx, prog)
    positions(ctx, prog)


def positions(ctx, prog):
    """a loop over parameters or columns keeps to one position in each turn"""
    n = 0
    for f in sorted(prog.by_dem.values(), key=lambda f: f.dem):
        m = re.match(r'^pfi::database::(mysql|postgresql)::\w+::(execute|fetch_row|query)$', f.short)
        if not m:
            continue
        preds = f.preds

        def strip(o):
            while o in f.defs and f.defs[o].op in ('sext', 'zext', 'trunc', 'freeze'):
                o = f.defs[o].ops[0]
            return o

        loops = []
        for h in f.loops():
            ix = [i for i in f.blocks[h] if i.op == 'phi' and any(o in f.defs and f.defs[o].op == 'add' and f.defs[o].ops == [i.id, 'c:1'] for o in i.ops)]
            body, work = {h}, []
            for o, p in ((o, p) for i in ix for o, p in zip(i.ops, i.d['in']) if o in f.defs and f.defs[o].op == 'add'):
                work.append(p)
            while work:
                b = work.pop()
                if b not in body:
                    body.add(b)
                    work += preds[b]
            if len(ix) == 1 and 'c:0' in ix[0].ops:
                loops.append((ix[0].id, body))
        uses = f.uses
        for ix, body in loops:
            seen, odd = set(), []
            for b in sorted(body):
                for i in f.blocks[b]:
                    if not i.iscall or not i.dem.startswith('std::vector<') or '::operator[](' not in i.dem or len(i.ops) != 2:
                        continue
                    d = f.defs.get(i.ops[0])
                    if d is not None and d.op not in ('alloca', 'getelementptr') or d is not None and d.op == 'getelementptr' and d.ops[0] != 'a0':
                        continue
                    root = i.ops[0] if d is None or d.op == 'alloca' else ('a0', d.d['off'])
                    x = strip(i.ops[1])
                    if x == ix:
                        seen.add(root)
                        continue
                    if any(x == j for j, other in loops if b in other):
                        continue
                    e = f.defs.get(x)
                    k = x[2:] if x.startswith('c:') else None
                    if e is not None and e.op in ('add', 'sub') and strip(e.ops[0]) == ix and e.ops[1].startswith('c:'):
                        k = 'one off the turn'
                    if k is None:
                        continue
                    us = uses.get(i.id, ())
                    if all(u.op in ('load', 'store') or u.op == 'getelementptr' and not u.d.get('var')
                           or u.iscall and re.match(r'^(std::vector<|std::(__cxx11::)?basic_string<|std::__shared_ptr<|pfi::|\(anonymous namespace\)::)', u.dem) for u in us):
                        odd.append((i, k))
                    if any(u.op == 'getelementptr' and u.d.get('var') for u in us):
                        odd = [o for o in odd if o[0] is not i]
            if not seen:
                continue
            n += 1
            ctx.ob('%s: each turn of the loop uses one position' % f.short, f.defs[ix].where())
            for i, k in odd:
                ctx.bad('position', f, i.where(), 'in a loop over all positions the element at position %s is used' % k)
            for b in sorted(body):
                for i in f.blocks[b]:
                    if i.iscall and i.callee == 'mysql_stmt_fetch_column' and len(i.ops) == 4:
                        d = f.defs.get(i.ops[1])
                        if d is not None and d.iscall and '::operator[](' in d.dem and strip(d.ops[1]) == ix and (i.ops[2].startswith('c:')):
                            ctx.bad('position', f, i.where(), 'the buffer of each column is filled from column %s' % i.ops[2][2:])
    ctx.count('loops over positions', n)


def binding(ctx, prog, f, vs):
    n = len(vs)
    e = Bind(prog, f)
    e.run()
    where = '%s:%d' % (f.file, f.line)
    if e.truncated or e.overlong:
        raise AnchorLost('%s: too many paths' % f.short)
    ok = 0
    for i, facts, tr, env in e.results:
        b = lambda msg: ctx.bad('binding', f, i.where(), '%s of %d values: %s' % (f.short.split('::')[-1], n, msg))
        for k, v in facts.items():
            if k[0] == 'oob':
                b('accesses %s' % v)
        if i.op != 'ret':
            continue
        ok += 1
        calls = [x for x in tr if x[0] == 'call']
        if len(calls) != 1:
            b('the backend is called %d times' % len(calls))
            continue
        _, cid, size, els, ops = calls[0]
        if size != n:
            b('%s values are bound' % size)
        want = [(k, ('a%d' % a, 0)) for a, k in vs]
        if list(els) != want[:len(els)] or len(els) != n:
            b('the values bound are made from %s' % ([x and x[0] for x in els],))
        if i.ops and i.ops[0] != cid and e.alias(i.ops[0], env) != cid:
            b('what is returned is not the result of the backend')
    if not ok:
        ctx.bad('binding', f, where, 'no path returns')
    ctx.ob('%s with %d values' % (f.short, n), where)


def fetching(ctx, prog, f, vs):
    n = len(vs)
    where = '%s:%d' % (f.file, f.line)
    for size in list(range(0, 13)):
        e = Bind(prog, f)
        e.row = size
        e.run()
        if e.truncated or e.overlong:
            raise AnchorLost('%s: too many paths' % f.short)
        ret = 0
        for i, facts, tr, env in e.results:
            b = lambda msg: ctx.bad('fetching', f, i.where(), 'fetch_row of %d columns, row of %d: %s' % (n, size, msg))
            for k, v in facts.items():
                if k[0] == 'oob':
                    b('accesses %s' % v)
            sets = [x for x in tr if x[0] == 'set']
            ks = [x[0] for x in tr]
            val = e.ev(i.ops[0], env) if i.op == 'ret' else None
            if 'norow' in ks:
                if i.op == 'ret' and (val != 0 or sets):
                    b('without a further row it assigns %d targets or does not return false' % len(sets))
                continue
            if 'row' not in ks:
                if i.op == 'ret':
                    b('returns without asking the backend for a row')
                continue
            if ks.count('row') != 1:
                b('asks for more than one row')
            if size != n:
                if i.op == 'ret':
                    b('returns normally')
                if sets:
                    b('assigns targets')
                continue
            if i.op != 'ret':
                if 'throw' in ks:
                    b('throws')
                continue
            ret += 1
            if val != 1:
                b('does not return true')
            vec = [x[1] for x in tr if x[0] == 'row'][0]
            want = sorted((k, ('a%d' % a, 0), (k, (vec, j))) for j, (a, k) in enumerate(vs))
            got = sorted((x[1], x[2], x[3]) for x in sets) if all(x[3] for x in sets) else None
            if got != want:
                b('targets are not assigned from their own columns: %s' % [(x[1], x[3] and (x[3][0], x[3][1] and x[3][1][-1])) for x in sets])
        if size == n and not ret:
            ctx.bad('fetching', f, where, 'fetch_row of %d columns never delivers a row of %d columns' % (n, n))
        ctx.ob('fetch_row into %d targets, row of %d columns' % (n, size), where)


class Conv(Trace):
    """paths of a function that dispatches on the kind of an sql_value it is given by reference; null: none is there"""
    def __init__(self, prog, f, arg, null, kinds):
        self.arg, self.null, self.kinds = arg, null, kinds
        Trace.__init__(self, prog, f)

    def load_value(self, i, st):
        if self.f.path(i.ops[0]) == (self.arg, 0) and i.d.get('t') == 'ptr':
            return 0 if self.null else None
        return None

    def extra_relevant(self):
        return self.forks + [i.id for i in self.f.insts() if i.op == 'load' and self.f.path(i.ops[0]) == (self.arg, 0)]

    def forking(self, i):
        return Trace.forking(self, i) or self.istype(i)

    def istype(self, i):
        return not i.callee and 'cv' in i.d and len(i.ops) == 1 and self.f.path(i.ops[0]) == (('L', self.arg, 0), 0)

    def event(self, i, facts, env):
        if self.istype(i):
            if self.null:
                return [(None, [('deref',)])]
            if 'kind' in facts:
                return [(facts['kind'], [])]
            return [(k, [('kind', k)]) for k in sorted(self.kinds) + [99]]
        if i.callee == '__dynamic_cast' and self.f.path(i.ops[0]) == (('L', self.arg, 0), 0):
            return [(None, [('cast', i.ops[2])])]
        return None

    def note(self, i, facts, env):
        return ()

    def outcomes(self, i, st, env):
        r = Trace.outcomes(self, i, st, env)
        if r and self.istype(i) and not self.null:
            out = []
            for v, s in r:
                facts = dict(s[0])
                facts['kind'] = v
                out.append((v, (tuple(sorted(facts.items(), key=str)), s[1])))
            return out
        return r

    def inst(self, st, i, env):
        if i.op == 'store' and self.f.path(i.ops[1])[0] in ('a1', ('L', 'a1', 8)):
            v = self.ev(i.ops[0], env)
            return [self.add(st, [('store', self.f.path(i.ops[1]), v)])]
        return None

    def throws(self, i):
        return False


def nullbind(ctx, prog):
    """conversions of values for the backends"""
    kinds = {}
    for f in prog.by_dem.values():
        m = re.match(r'^pfi::database::(sql_\w+)::type$', f.short)
        if m:
            v = [i.ops[0] for i in f.insts() if i.op == 'ret']
            c = f.const(v[0]) if len(v) == 1 else None
            if c is None:
                raise AnchorLost('%s does not return a constant' % f.short)
            if c in kinds:
                ctx.bad('value-kinds', f, '%s:%d' % (f.file, f.line), '%s and %s claim the same type' % (m.group(1), kinds[c]))
            kinds[c] = m.group(1)
    ctx.need('value_classes', len(kinds), 7)
    bind = dict((m['n'], m['off']) for m in prog.types['st_mysql_bind']['m'])
    BT = {'sql_bool': (1, 2, 3, 8), 'sql_string': (15, 252, 253, 254), 'sql_int32': (3, 8), 'sql_int64': (8,), 'sql_float': (5,), 'sql_timestamp': (7, 12)}
    n = 0
    for f in sorted(prog.by_dem.values(), key=lambda f: f.dem):
        ty = (f.d.get('ditypes') or [])[1:]
        arg = [k for k, t in enumerate(ty) if 'shared_ptr<pfi::database::sql_value' in t and 'vector' not in t]
        if not f.short.startswith('pfi::database::') or not arg or f.short.startswith('pfi::database::from_sql'):
            continue
        shift = 1 if f.args and len(f.args) > len(ty) else 0
        a = 'a%d' % (arg[0] + shift)
        if not any(not i.callee and 'cv' in i.d and len(i.ops) == 1 and f.path(i.ops[0]) == (('L', a, 0), 0) for i in f.calls()):
            continue
        n += 1
        where = '%s:%d' % (f.file, f.line)
        mysql = any('st_mysql_bind' in t or 'MYSQL_BIND' in t for t in ty)
        for null in (True, False):
            e = Conv(prog, f, a, null, kinds)
            e.run()
            if e.truncated:
                raise AnchorLost('%s: too many paths' % f.short)
            for i, facts, tr, env in e.results:
                b = lambda msg: ctx.bad('value-conversion', f, i.where(), msg)
                if null:
                    if any(x[0] in ('deref', 'cast') for x in tr):
                        b('a missing (NULL) value is looked into')
                    if i.op == 'ret' and mysql:
                        flag = [x[2] for x in tr if x[0] == 'store' and x[1] == (('L', 'a1', bind['is_null']), 0)]
                        bt = [x[2] for x in tr if x[0] == 'store' and x[1] == ('a1', bind['buffer_type'])]
                        if not (flag and flag[-1]) and not (bt and bt[-1] == 6):
                            b('a missing value is not bound as NULL')
                    continue
                k = facts.get('kind')
                if k is None:
                    continue
                for x in tr:
                    if x[0] == 'cast' and k in kinds and not x[1].endswith('%d%sE' % (len(kinds[k]), kinds[k])):
                        b('a value of class %s is accessed as %s' % (kinds[k], x[1]))
                if i.op == 'ret' and mysql and k in kinds:
                    bt = [x[2] for x in tr if x[0] == 'store' and x[1] == ('a1', bind['buffer_type'])]
                    if not bt or bt[-1] not in BT.get(kinds[k], ()):
                        b('a value of class %s is bound with buffer type %s' % (kinds[k], bt[-1] if bt else None))
            ctx.ob('conversion by %s (%s)' % (f.short, 'missing value' if null else 'each of %d classes' % len(kinds)), where)
    ctx.need('converting_functions', n, 3)

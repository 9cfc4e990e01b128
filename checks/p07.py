"""Thread objects: reachability over abstract object states (members by layout)
x ghost 'a system thread was created and is neither joined nor detached'."""
from pfa import *
from automaton import *

RULE = '''From construction, over every sequence of start, join, detach and destruction and every outcome of the system calls (and
an exception while the function object is copied): start creates a system thread exactly when a function is set and none is
running and reports exactly that; join joins exactly when one is running and reports exactly that; detach and destruction give
up a running thread exactly once and touch the system otherwise not; the function object handed to the new thread is called
exactly once, freed exactly once by it, and freed by start exactly when creation failed.'''
ASSUME = ['thread objects themselves are used by one thread at a time', 'pthread primitives behave as POSIX specifies']

TID = 4242


def check(ctx):
    prog = ctx.prog('lo')
    T = 'pfi::concurrent::thread::'
    routines = set()

    def sysof(name, ghost):
        live, fn = ghost

        def create(ex, i, st, env):
            routines.add((i.ops[2], i))
            ok = ex.add(ex.put_at(st, i.ops[0], TID), ('create', 1))
            return [(0, ok), (11, ex.add(ex.put_at(st, i.ops[0], None), ('create', 0)))]

        def rel(kind):
            def h(ex, i, st, env):
                tid = ex.ev(i.ops[0], env)
                return [(0, ex.add(st, (kind, 1, tid))), (3, ex.add(st, (kind, 0, tid)))]
            return h

        def hasf(ex, i, st, env):
            return [(fn, st)]

        def new(ex, i, st, env):
            return [(1 << 20, ex.add(st, ('new', i.id)))]

        def dele(ex, i, st, env):
            d = ex.f.strip_casts(i.ops[0])
            return [(None, ex.add(st, ('delete', d)))]
        return {'pthread_create': create, 'pthread_join': rel('join'), 'pthread_detach': rel('detach'),
                'std::function::operator bool': hasf, 'std::_Function_base::_M_empty': lambda ex, i, st, env: [(1 - fn, st)],
                'operatornew': new, 'operatordelete': dele}

    def spec(name, f, ghost, i, tr, v, ex, cells):
        live, fn = ghost
        what = '%s with %s running' % (name, 'a thread' if live else 'no thread')
        ctx.count('transitions')
        ctx.ob(what, '%s:%d' % (f.file, f.line))
        b = lambda msg: ctx.bad('lifecycle', f, i.where(), '%s: %s' % (what, msg))
        cr = [e for e in tr if e[0] == 'create']
        jn = [e for e in tr if e[0] == 'join']
        dt = [e for e in tr if e[0] == 'detach']
        for e in jn + dt:
            if e[2] != TID:
                b('the system call is given a thread id other than that of the created thread')
        exc = i.op == 'resume'
        if name == 'ctor':
            if cr or jn or dt:
                b('construction creates or gives up a thread')
            return None if exc else (0, fn)
        if name == 'start':
            if jn or dt:
                b('start joins or detaches')
            if live or not fn:
                if cr:
                    b('a second thread is created' if live else 'a thread is created without a function')
                if v != 0 and not exc:
                    b('reports success although nothing was started')
                return ghost
            if exc:
                if cr and cr[-1][1]:
                    b('throws after creating the thread')
                return ghost
            if len(cr) != 1:
                b('%d threads are created' % len(cr))
                return ghost
            if v != cr[0][1]:
                b('reports %s although creation %s' % ('success' if v else 'failure', 'succeeded' if cr[0][1] else 'failed'))
            # ownership of the heap block handed over
            news = [e[1] for e in tr if e[0] == 'new']
            dels = [e[1] for e in tr if e[0] == 'delete']
            pc = [x for x in f.calls() if x.callee == 'pthread_create'][0]
            arg = f.strip_casts(pc.ops[3])
            if arg in news:
                if cr[0][1] and arg in dels:
                    b('the function handed to the new thread is freed by the starter')
                if not cr[0][1] and dels.count(arg) != 1:
                    b('the function object is freed %d times when creation fails' % dels.count(arg))
            return (cr[0][1], fn)
        if name == 'join':
            if cr or dt:
                b('join creates or detaches')
            if not live:
                if jn:
                    b('joins although no thread is running')
                if v != 0:
                    b('reports success although there was nothing to join')
                return ghost
            if len(jn) != 1:
                b('the running thread is joined %d times' % len(jn))
                return ghost
            if v != jn[0][1]:
                b('reports %s although the join %s' % ('success' if v else 'failure', 'succeeded' if jn[0][1] else 'failed'))
            return (0 if jn[0][1] else 1, fn)
        # detach / destruction
        if cr:
            b('creates a thread')
        if not live:
            if jn or dt:
                b('gives up a thread although none is running')
        elif len(dt) != 1 or jn:
            b('a running thread is %s' % ('joined' if jn else 'detached %d times' % len(dt)))
        if name == 'dtor':
            return None
        return (0 if not live or (dt and dt[0][1]) else 1, fn)

    def only(n):
        fs = [f for f in prog.need(T + n) if not ('const&' in f.dem and n == 'thread' and 'function' not in f.dem)]
        return fs
    n = 0
    for fn in (1, 0):
        ctors = [('ctor', f, 'a0') for f in only('thread')]
        meths = [('start', only('start')[0], 'a0'), ('join', only('join')[0], 'a0'), ('detach', only('detach')[0], 'a0'), ('dtor', only('~thread')[0], 'a0')]
        n += reach(ctx, prog, ctors, meths, sysof, spec, (0, fn))
    ctx.need('abstract_states', n, 3)
    # the routine run by the new thread
    if not routines:
        raise AnchorLost('no thread creation reachable')
    names = set(r[0].replace('g:', '') for r in routines)
    for nm in names:
        f = prog.by_name.get(nm)
        if f is None:
            raise AnchorLost('thread routine %s has no body' % nm)
        check_routine(ctx, prog, f)


class R(FieldExplorer):
    def event(self, i, st, env):
        if not i.iscall:
            return None
        c = i.callee
        if c == 'std::function::operator()':
            return ('call', self.root(i.ops[0]))
        if c == 'operatordelete':
            return ('free', self.root(i.ops[0]))
        return None

    def root(self, v):
        return self.f.path(v)[0]


def check_routine(ctx, prog, f):
    e = R(prog, f, {})
    e.env0 = {'a0': 1 << 20}
    e.run()
    ctx.ob('the new thread calls the function once and frees it once', '%s:%d' % (f.file, f.line))
    for i, st, v in e.results:
        if i.op != 'ret':
            continue
        calls = [x for x in st[1] if x[0] == 'call']
        frees = [x for x in st[1] if x[0] == 'free' and x[1] == 'a0']
        if len(calls) != 1:
            ctx.bad('routine', f, i.where(), 'a path runs the function %d times' % len(calls))
        if len(frees) != 1:
            ctx.bad('routine', f, i.where(), 'a path frees the function object %d times' % len(frees))
        if calls and frees and st[1].index(frees[0]) < st[1].index(calls[0]):
            ctx.bad('routine', f, i.where(), 'the function object is freed before it is called')

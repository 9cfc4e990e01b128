"""Reachability over the abstract object states of a class: cells are the
scalar members (by layout), transitions are its public methods under every
modelled system-call outcome, and a ghost records what really happened."""
from pfa import *


class Meth(ObjExplorer):
    """one method run from one abstract state; `sys` maps callee -> handler(ex, i, st, env) returning [(value, state)]"""

    def __init__(self, prog, f, init, sys, this='a0'):
        ObjExplorer.__init__(self, prog, f, init, this)
        self.sys = sys

    def outcomes(self, i, st, env):
        h = self.sys.get(i.callee)
        if h is None:
            return None
        return h(self, i, st, env)

    def put_at(self, st, ptr, val):
        c = self.cell(self.f.path(ptr))
        return st if c is None else self.put(st, c, val)


def run_method(prog, f, cells, sys, this='a0'):
    e = Meth(prog, f, cells, sys, this)
    e.run()
    if e.truncated:
        raise AnchorLost('state space of %s truncated' % f.short)
    return e


def reach(ctx, prog, ctors, methods, sysof, spec, ghost0, limit=4000):
    """ctors/methods: list of (name, Func, this). sysof(name, ghost) -> call models.
    spec(name, f, ghost, inst, trace, value, explorer, cells) -> list of next ghosts (None ends the object)."""
    seen = set()
    work = []
    n = 0

    def step(name, f, this, cells, ghost):
        e = run_method(prog, f, dict(cells), sysof(name, ghost), this)
        for i, st, v in e.results:
            if i.op not in ('ret', 'resume'):
                continue
            g = spec(name, f, ghost, i, st[1], v, e, dict(st[0]))
            if g is None:
                continue
            s = (st[0], g)
            if s not in seen:
                seen.add(s)
                work.append(s)
        return e
    for name, f, this in ctors:
        step(name, f, this, (), ghost0)
    while work:
        cells, ghost = work.pop()
        n += 1
        if n > limit:
            raise AnchorLost('too many abstract object states')
        for name, f, this in methods:
            step(name, f, this, cells, ghost)
    return n

"""Event traces: every path of a function as the sequence of the events a rule cares about."""
from pfa import *

STREAM_OK = {'std::basic_ios::operator!': 0, 'std::basic_ios::fail': 0, 'std::basic_ios::good': 1, 'std::basic_ios::operator bool': 1}
STREAM_BAD = ('std::basic_ios::bad', 'std::basic_ios::eof')


class Trace(Explorer):
    """state = (facts, events). Subclasses override event(i, st, env) returning
    None (not an event), or a list of (value, (events...)) alternatives; note(i) gives facts
    (pairs) remembered about locals, last one wins. throw_events(i) are the events seen when i throws."""
    LIM = 60
    MAXSTATES = 120000

    def __init__(self, prog, f):
        Explorer.__init__(self, prog, f)
        self.results = []
        self.overlong = False
        # comparisons that select an exception handler
        self.sel = {}
        for i in f.insts():
            if i.op == 'icmp' and i.d.get('p') in ('eq', 'ne'):
                for o in i.ops:
                    d = f.defs.get(o)
                    if d is not None and d.iscall and d.callee == 'llvm.eh.typeid.for':
                        self.sel[i.id] = (d.ops[0], 1 if i.d['p'] == 'eq' else 0)
        self.forkids = set(self.forkids) | set(self.sel)
        self.forks = list(self.sel) + [i.id for i in f.insts() if i.iscall and self.forking(i)]

        self.sticky = set(self.forks)

    def forking(self, i):
        return i.callee in STREAM_OK or i.callee in STREAM_BAD

    def extra_relevant(self):
        return self.forks

    def init(self):
        return ((), ())

    def event(self, i, facts, env):
        return None

    def note(self, i, facts, env):
        return ()

    def add(self, st, evs):
        if not evs:
            return st
        t = st[1] + tuple(evs)
        if len(t) > self.LIM:
            self.overlong = True
            t = t[:self.LIM]
        return (st[0], t)

    def outcomes(self, i, st, env):
        facts = dict(st[0])
        if i.id in self.sel:
            ti, eq = self.sel[i.id]
            x = facts.get('exc')
            if x is None:
                return [(None, st)]
            return [(eq if catches(self.prog, ti, x) else 1 - eq, st)]
        n = self.note(i, facts, env)
        if n:
            facts.update(n)
            st = (tuple(sorted(facts.items(), key=str)), st[1])
        ev = self.event(i, facts, env)
        if ev is None:
            if i.callee in STREAM_BAD:
                return [(1, self.add(st, [('bad',)])), (0, st)]
            if i.callee in STREAM_OK:
                ok = STREAM_OK[i.callee]
                return [(ok, self.add(st, [('good',)])), (1 - ok, self.add(st, [('bad',)]))]
            return [(None, st)] if n else None
        return [(v, self.add(st, es)) for v, es in ev]

    def exit(self, st, i, env):
        if i.op == 'unreachable':
            blk = self.f.blocks[i.blk]
            if not any(x.iscall and x.callee in ('__cxa_throw', '__cxa_rethrow') for x in blk):
                return
        self.results.append((i, dict(st[0]), st[1], env))


def tiname(prog, g):
    d = prog.globals.get(g[2:], {}).get('dem', '') if g.startswith('g:') else ''
    return d[len('typeinfo for '):] if d.startswith('typeinfo for ') else None


def catches(prog, handler, thrown):
    a, b = tiname(prog, handler), tiname(prog, thrown)
    return handler == thrown or bool(a and b and prog.derives(b, a))


def thrown(st, i):
    """state after call i threw: remember the class of an explicit throw"""
    facts = dict(st[0])
    if i.callee == '__cxa_throw':
        facts['exc'] = i.ops[1]
    else:
        facts.pop('exc', None)
    return (tuple(sorted(facts.items(), key=str)), st[1])


def entry(f):
    """called from outside, or only through a pointer or a virtual table"""
    return not f.d.get('ncallers')


def cstr(prog, v, f=None):
    """text of a string literal operand (or of a pointer that is never anything else)"""
    if isinstance(v, str):
        if f is not None and v in f.defs and f.defs[v].op == 'load':
            g = prog.globals.get(f.defs[v].ops[0][2:]) if f.defs[v].ops[0].startswith('g:') else None
            if g and g.get('pinit') and (g.get('const') or g.get('onlyloaded')):
                return cstr(prog, g['pinit'])
        if v.startswith('ce:'):
            v = v.split(':', 2)[2]
        if v.startswith('g:'):
            g = prog.globals.get(v[2:])
            if g and g.get('const') and g.get('init') is not None and g.get('esz') == 1 and isinstance(g['init'], list):
                b = bytes(x & 255 for x in g['init'])
                return b.split(b'\0')[0].decode('latin1')
            if g and g.get('const') is not None:
                return None
    return None

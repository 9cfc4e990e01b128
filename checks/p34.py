"""Destruction never throws and never ends the program."""
from pfa import *
from trace import *

RULE = '''No path of a destructor (everything the library does in it inlined) raises an exception that is not caught inside it. The only
exception is a destructor that is declared noexcept(false), which must not raise one while the stack is being unwound
(std::uncaught_exception) or during a nested cleanup.'''
ASSUME = ['allocation failures inside standard containers are out of scope', 'destructors of user-supplied types do not throw']


class T(Trace):
    def __init__(self, prog, f, maythrow):
        Trace.__init__(self, prog, f)
        self.maythrow = maythrow
        self.escapes = []
        self.throwing = 0
        for i in f.calls():
            if self.explicit(i):
                self.throwing += 1

    def explicit(self, i):
        return i.callee in ('__cxa_throw', '__cxa_rethrow', 'std::rethrow_exception') or i.d.get('callee') in self.maythrow or self.virtual(i) in self.maythrow

    def virtual(self, i):
        return virtual(self.prog, self.f, i)

    def throws(self, i):
        return self.explicit(i)

    def unwind(self, st, i, env):
        st = thrown(st, i)
        t = i.d.get('callee') if i.d.get('callee') in self.maythrow else self.virtual(i)
        if i.callee not in ('__cxa_throw', '__cxa_rethrow') and t in self.maythrow:
            facts = dict(st[0])
            facts['exc'] = '@' + t
            st = (tuple(sorted(facts.items(), key=str)), st[1])
        return st

    def outcomes(self, i, st, env):
        if i.id in self.sel:
            x = dict(st[0]).get('exc')
            if x and x.startswith('@'):
                ti, eq = self.sel[i.id]
                c = set(catches(self.prog, ti, y) for y in self.maythrow[x[1:]])
                if c == set([True]):
                    return [(eq, st)]
                if c == set([False]):
                    return [(1 - eq, st)]
                return [(0, st), (1, st)]
        return Trace.outcomes(self, i, st, env)

    def inst(self, st, i, env):
        if i.iscall and i.op == 'call' and self.explicit(i):
            self.escapes.append(i)
        if i.iscall and i.callee in ('__clang_call_terminate', 'std::terminate'):
            self.escapes.append(i)
        return [st]

    def exit(self, st, i, env):
        if i.op == 'resume':
            self.escapes.append(i)


def virtual(prog, f, i):
    """target of a virtual call on the object itself: its own class's final overrider"""
    if 'cv' not in i.d:
        return None
    p = f.path(i.d['cv'])[0]
    if isinstance(p, tuple) and p[0] == 'L' and p[1] == ('L', 'a0', 0) and f.cls:
        g = prog.vtables.get(f.cls)
        k = p[2] // 8 + 2
        if g and g.get('agg') and k < len(g['agg'][0]):
            return str(g['agg'][0][k])[2:]
    return None


def isdtor(f):
    return f.short.split('::')[-1].startswith('~')


def check(ctx):
    for c in ('all', 'db'):
        part(ctx, ctx.prog(c))
    ctx.need('destructors', ctx.counts.get('destructors', 0), 40)


def part(ctx, prog):
    may = {}
    prog.vtables = dict((g['dem'][len('vtable for '):], g) for g in prog.globals.values() if g['dem'].startswith('vtable for '))
    # classes of the exceptions raised by explicit throws inside each function, transitively
    changed = True
    while changed:
        changed = False
        for f in prog.funcs:
            if f.d.get('nounwind'):
                continue
            ty = set(may.get(f.name, ()))
            for i in f.calls():
                if i.callee == '__cxa_throw':
                    ty.add(i.ops[1])
                elif i.d.get('callee') in may:
                    ty |= may[i.d['callee']]
                elif 'cv' in i.d and virtual(prog, f, i) in may:
                    ty |= may[virtual(prog, f, i)]
            if ty and ty != may.get(f.name):
                may[f.name] = ty
                changed = True
    n = 0
    for f in prog.funcs:
        if not isdtor(f) or not (f.dem.startswith('pfi::') or 'pfi::' in f.short):
            continue
        if not f.d.get('nounwind') and not terminates(f):
            ctx.count('declared_noexcept_false_or_trivial')
        t = T(prog, f, may)
        n += 1
        ctx.ob('no exception leaves this destructor (%d raising sites in it)' % t.throwing, f.short)
        if not t.throwing:
            continue
        t.run()
        if t.truncated:
            raise AnchorLost('state space of %s truncated' % f.short)
        if t.escapes and not allowed(f):
            src = [i for i in f.calls() if t.explicit(i)]
            ctx.bad('throwing-destructor', f, src[0].where(), 'an exception raised here leaves the destructor, which ends the program')
    ctx.count('destructors', n)


def terminates(f):
    return any(i.callee in ('__clang_call_terminate', 'std::terminate') for i in f.calls())


def allowed(f):
    return not f.d.get('nounwind') and not terminates(f)

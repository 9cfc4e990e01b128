"""The server's dispatch loop, the client's connection check and the two sides' agreement on control messages."""
import re
from pfa import *
from trace import *

RULE = '''Server loop, on every path, per request (from the read of a procedure name to the next one or the end of the connection):
nothing is answered and nothing invoked unless the stream was found good after the last read; a procedure is invoked only if the
name was found in the table of procedures, the version was read and found equal to the server's version, and at most once; an
unknown name, a version mismatch, a ping and a complete valid request each get exactly one answer (written text, or the invoker's);
what is written is flushed; after answering an error the connection ends; an rpc_error of an invoker does not end the thread; a
thread that leaves the loop reports so exactly once. Client: a connection is handed out only if on it, during this call, a ping was
written and flushed and the answer read equals the one the server gives; otherwise none is handed out. Both sides: the keyword the
client maps to 'method not found' (resp. 'version mismatch', with server and client version in this order) is the one the server
writes in that case.'''
ASSUME = ['std::map, std::string and iostreams behave as specified']
SER = 'pfi::data::serialization::'
RPC = 'pfi::network::rpc::'


class Text(Trace):
    """knows the texts of string objects"""
    def txt(self, v, facts):
        s = cstr(self.prog, v, self.f)
        if s is not None:
            return s
        p = self.f.path(v)
        return facts.get(('lit', p), '{%s}' % (self.valname(p, facts),))

    def valname(self, p, facts):
        return facts.get(('is', p), str(p))

    def note(self, i, facts, env):
        c = i.callee
        f = self.f
        if c in ('std::__cxx11::basic_string::basic_string', 'std::__cxx11::basic_string::operator='):
            if len(i.ops) >= 2:
                return [(('lit', f.path(i.ops[0])), self.txt(i.ops[1], facts))]
            return [(('lit', f.path(i.ops[0])), '')]
        if c == 'std::operator+' and 'sret' in i.d and len(i.ops) == 3:
            return [(('lit', f.path(i.ops[0])), self.txt(i.ops[1], facts) + self.txt(i.ops[2], facts))]
        if c in ('std::__cxx11::basic_string::operator+=', 'std::__cxx11::basic_string::append') and len(i.ops) == 2:
            p = f.path(i.ops[0])
            return [(('lit', p), self.txt(i.ops[0], facts) + self.txt(i.ops[1], facts))]
        if c.startswith('pfi::lang::lexical_cast') and 'sret' in i.d:
            return [(('lit', f.path(i.ops[0])), '{%s}' % self.intname(i.ops[1], facts))]
        if c.startswith('std::') and 'to_string' in c and 'sret' in i.d:
            return [(('lit', f.path(i.ops[0])), '{%s}' % self.intval(i.ops[1], facts))]
        return ()

    def intname(self, ptr, facts):
        p = self.f.path(ptr)
        for k in range(4):
            if ('cell', p) in facts:
                p = facts[('cell', p)]
        return self.valname(p, facts)

    def intval(self, v, facts):
        d = self.f.defs.get(self.f.strip_casts(v))
        if d is not None and d.op == 'load':
            return self.intname(d.ops[0], facts)
        return str(v)

    def strcmp(self, i):
        c = i.callee
        if c in ('std::operator!=', 'std::operator==') and 'basic_string' in i.dem and '_iterator' not in i.dem and len(i.ops) == 2:
            return 1 if c.endswith('==') else 0
        if c.endswith('basic_string::compare') and len(i.ops) == 2:
            return 0
        return None

    def forking(self, i):
        return Trace.forking(self, i) or self.strcmp(i) is not None

    def throws(self, i):
        return not i.d.get('nothrow')

    def inst(self, st, i, env):
        # copies of tracked integers between locals
        if i.op == 'store':
            d = self.f.defs.get(self.f.strip_casts(i.ops[0]))
            p = self.f.path(i.ops[1])
            facts = dict(st[0])
            if d is not None and d.op == 'load' and self.f.root_is_local(p[0]):
                src = self.f.path(d.ops[0])
                if ('is', src) in facts or ('cell', src) in facts or src[0] == 'a0':
                    facts[('cell', p)] = facts.get(('cell', src), src)
                    return [(tuple(sorted(facts.items(), key=str)), st[1])]
        return None


class Proc(Text):
    def __init__(self, prog, f, vermember, funcsmember, name_ty):
        self.ver = vermember
        self.funcs = funcsmember
        self.reqs = {}
        self.f = f
        self.prog = prog
        # comparisons of an int read from the stream with the server's version
        read = set(f.path(i.ops[1]) for i in f.calls() if self.isint(i))
        self.vercmp = {}
        self.itcmp = set()
        for i in f.insts():
            if i.op == 'icmp' and i.d.get('p') in ('eq', 'ne'):
                ps = []
                for o in i.ops:
                    d = f.defs.get(f.strip_casts(o))
                    ps.append(f.path(d.ops[0]) if d is not None and d.op == 'load' else None)
                if ('a0', self.ver) in ps and any(p in read for p in ps if p):
                    self.vercmp[i.id] = 1 if i.d['p'] == 'eq' else 0
        self.forkids = set(self.vercmp)
        Text.__init__(self, prog, f)
        self.forks += list(self.vercmp)

    def isint(self, i):
        return SER + 'serialize(' + SER + 'binary_iarchive&, ' in i.dem

    def maplookup(self, i):
        return i.callee in ('std::map::count', 'std::map::find', 'std::map::contains', 'std::unordered_map::count', 'std::unordered_map::find') and self.f.path(i.ops[1 if 'sret' in i.d else 0]) == ('a0', self.funcs)

    def forking(self, i):
        return Text.forking(self, i) or self.maplookup(i) or self.iteq(i) is not None

    def exact(self):
        """an iterator other than the end stands for the name itself: find, or lower_bound with a comparison of the keys"""
        f = self.f
        calls = list(f.calls())
        if not any((i.callee or '') in ('std::map::lower_bound', 'std::map::upper_bound') and f.path(i.ops[1 if 'sret' in i.d else 0]) == ('a0', self.funcs) for i in calls):
            return True
        for i in calls:
            if self.strcmp(i) is not None and not any(cstr(self.prog, o, f) for o in i.ops) or re.search(r'basic_string.*::compare\(', i.dem or '') or 'key_comp' in (i.dem or ''):
                return True
        return any(self.maplookup(i) for i in calls)

    def iteq(self, i):
        if i.callee in ('std::operator==', 'std::operator!=', 'std::_Rb_tree_iterator::operator==', 'std::_Rb_tree_iterator::operator!=') and '_Rb_tree_' in i.dem and 'invoker_base' in i.dem:
            return 1 if i.callee.endswith('==') else 0
        return None

    def event(self, i, facts, env):
        c = i.callee
        f = self.f
        d = i.dem
        if i.id in self.vercmp:
            eq = self.vercmp[i.id]
            return [(eq, [('vereq',)]), (1 - eq, [('verne',)])]
        if (SER + 'serialize<' + SER + 'binary_iarchive, char') in d:
            return [(None, [('name', f.path(i.ops[1]))])]
        if self.isint(i):
            return [(None, [('ver',)])]
        if SER + 'serialize<' + SER + 'binary_oarchive, char' in d:
            return [(None, [('w', self.txt(i.ops[1], facts))])]
        if SER in d and 'binary_oarchive' in d and 'serialize' in d:
            return [(None, [('w', '?')])]
        if c in ('std::ostream::flush', 'std::basic_ostream::flush'):
            return [(None, [('flush',)])]
        eq = self.strcmp(i)
        if eq is not None:
            s = [cstr(self.prog, o, f) or facts.get(('lit', f.path(o))) for o in i.ops]
            s = [x for x in s if x is not None and '{' not in x]
            if s:
                return [(eq, [('eq', s[0])]), (1 - eq, [('ne', s[0])])]
            return None
        if self.maplookup(i) and not c.endswith('find'):
            return [(1, [('found', f.path(i.ops[1]))]), (0, [('nofound',)])]
        eq = self.iteq(i)
        if eq is not None:
            return [(eq, [('nofound',)]), (1 - eq, [('found',)] if self.exact() else [])]
        if not c and 'cv' in i.d and len(i.ops) == 3:
            return [(None, [('invoke',)])]
        if c == 'pfi::network::server_socket::accept':
            return [(None, [('accept',)])]
        if c.startswith(RPC + 'rpc_server::notify'):
            return [(None, [('notify',)])]
        return None

    def note(self, i, facts, env):
        if (SER + 'serialize<' + SER + 'binary_iarchive, char') in i.dem:
            return [(('is', self.f.path(i.ops[1])), 'name'), (('lit', self.f.path(i.ops[1])), '{name}')]
        if self.isint(i):
            return [(('is', self.f.path(i.ops[1])), 'reqver')]
        return Text.note(self, i, facts, env)

    def valname(self, p, facts):
        if p == ('a0', self.ver):
            return 'ver'
        return Text.valname(self, p, facts)

    def unwind(self, st, i, env):
        if not i.callee and 'cv' in i.d:
            return self.add(st, [('invoke',), ('ithrow',)])
        return self.add(st, [('othrow',)]) if st[1] else st

    def finish(self, evs, how, where):
        if evs and evs[0][0] == 'name':
            self.reqs.setdefault((evs, how), where)

    def add(self, st, evs):
        for e in evs:
            if e[0] in ('name', 'accept'):
                self.finish(st[1], 'next' if e[0] == 'name' else 'end', '')
                st = ((), (e,) if e[0] == 'name' else ()) if e[0] == 'name' else ((), ())
                if e[0] == 'name':
                    st = (((('is', e[1]), 'name'), (('lit', e[1]), '{name}')), (('name',),))
            else:
                st = Trace.add(self, st, [e])
        return st

    def exit(self, st, i, env):
        evs = st[1]
        if i.op == 'ret':
            tail = [e for e in evs if e[0] == 'notify']
            self.results.append((i, len(tail)))
            self.finish(tuple(e for e in evs if e[0] != 'notify'), 'end', i.where())
        else:
            self.finish(evs, 'throw', i.where())


def check(ctx):
    prog = ctx.prog('rpc')
    typer = Typer(prog)
    ctors = [f for f in prog.by_dem.values() if f.short == RPC + 'rpc_server::rpc_server' and len(f.args) >= 2]
    ver = None
    for f in ctors:
        for i in f.insts():
            if i.op == 'store' and i.ops[0] == 'a1' and f.path(i.ops[1])[0] == 'a0':
                ver = f.path(i.ops[1])[1]
    if ver is None:
        raise AnchorLost('the member that holds the version of rpc_server')
    fm = None
    for m in prog.all_members(RPC + 'rpc_server'):
        if 'invoker_base' in m['t'] and 'map<' in m['t']:
            fm = m['off']
    if fm is None:
        raise AnchorLost('the table of procedures of rpc_server')
    loop = [f for f in prog.by_dem.values() if f.cls == RPC + 'rpc_server' and any('binary_iarchive, char' in i.dem for i in f.calls())]
    if len(loop) != 1:
        raise AnchorLost('the server loop (%d candidates)' % len(loop))
    f = loop[0]
    e = Proc(prog, f, ver, fm, None)
    e.run()
    if e.truncated or e.overlong:
        raise AnchorLost('%s: too many paths' % f.short)
    control = judge(ctx, f, e)
    client(ctx, prog, control)
    errors(ctx, prog, control)


def judge(ctx, f, e):
    where0 = '%s:%d' % (f.file, f.line)
    n = dict(ping=0, notfound=0, mismatch=0, invoke=0)
    control = dict(ping=set(), notfound=set(), mismatch=set())
    for (evs, how), where in sorted(e.reqs.items(), key=str):
        b = lambda msg: ctx.bad('server-loop', f, where or where0, msg)
        ks = [x[0] for x in evs]
        status = None
        found = vereq = False
        verread = vergood = False
        nameok = False
        unflushed = False
        answers = []
        inv = 0
        afterverread = False
        for x in evs:
            k = x[0]
            if k == 'name':
                status = None
            elif k == 'ver':
                status = None
                verread = True
            elif k == 'good':
                status = 'good'
                if not verread:
                    nameok = True
            elif k == 'bad':
                status = 'bad'
            elif k == 'found':
                found = True
            elif k == 'vereq':
                vereq = verread and status == 'good'
            elif k == 'w':
                if status != 'good':
                    b('an answer (%r) is written although the stream was not found good after the last read' % x[1])
                answers.append(x[1])
                unflushed = True
            elif k == 'flush':
                unflushed = False
            elif k == 'invoke':
                inv += 1
                if status != 'good':
                    b('a procedure is invoked although the stream was not found good after the request was read')
                if not found:
                    b('a procedure is invoked although its name was not found in the table')
                if not verread or not vereq:
                    b('a procedure is invoked although the version of the request was not found equal to the version of the server')
        if how == 'throw' or 'othrow' in ks:
            continue       # e.g. memory exhausted
        if unflushed:
            b('an answer is written but not flushed before the next request or the end of the connection')
        if inv > 1:
            b('a procedure is invoked %d times for one request' % inv)
        eqs = [x[1] for x in evs if x[0] == 'eq']
        status_last = [x[0] for x in evs if x[0] in ('good', 'bad')]
        if 'bad' in status_last:
            continue
        if not nameok:
            continue
        if 'nofound' in ks:
            n['notfound'] += 1
            if len(answers) != 1 or inv:
                b('a request for an unknown procedure gets %d answers' % len(answers))
            else:
                control['notfound'].add(answers[0])
            if how != 'end':
                b('the connection goes on after a request for an unknown procedure, whose arguments are still unread')
        elif 'verne' in ks:
            n['mismatch'] += 1
            if len(answers) != 1 or inv:
                b('a request with another version gets %d answers' % len(answers))
            else:
                control['mismatch'].add(answers[0])
            if how != 'end':
                b('the connection goes on after a version mismatch, while the arguments are still unread')
        elif 'vereq' in ks:
            n['invoke'] += 1
            if inv != 1 or answers:
                b('a valid request invokes the procedure %d times (and the loop itself writes %d answers)' % (inv, len(answers)))
        elif eqs:
            n['ping'] += 1
            if not answers:
                b('the control message %r gets no answer' % eqs[0])
            if how == 'next':
                if len(answers) != 1:
                    b('the control message %r gets %d answers' % (eqs[0], len(answers)))
                else:
                    control['ping'].add((eqs[0], answers[0]))
        else:
            b('a request is received but neither answered nor passed to a procedure (%s)' % ' '.join(ks))
    for i, cnt in e.results:
        if cnt != 1:
            ctx.bad('server-loop', f, i.where(), 'a server thread that ends reports so %d times' % cnt)
    # an rpc_error of an invoker is caught inside
    for i in f.calls():
        if not i.callee and 'cv' in i.d:
            ok = False
            if i.op == 'invoke':
                lp = f.blocks[i.d['unwind']][0]
                ok = any('rpc_error' in str(c) or c in ('null',) for c in lp.d.get('clauses', []))
            ctx.ob('an rpc_error of the invoker stays inside the loop', i.where())
            if not ok:
                ctx.bad('server-loop', f, i.where(), 'an rpc_error thrown by the invoker leaves the server thread')
    for k in ('notfound', 'mismatch', 'invoke', 'ping'):
        if not n[k]:
            ctx.bad('server-loop', f, where0, 'no path of the server loop handles the case "%s"' % k)
        ctx.ob('server loop, case %s: %d paths' % (k, n[k]), where0, n[k])
    if not e.results:
        raise AnchorLost('the server loop never ends')
    return control


class Conn(Text):
    """state of the connection held: which stream checks hold since it was made"""
    def event(self, i, facts, env):
        f = self.f
        c = i.callee
        d = i.dem
        if (SER + 'serialize<' + SER + 'binary_iarchive, char') in d:
            return [(None, [('r', f.path(i.ops[1]))])]
        if SER + 'serialize<' + SER + 'binary_oarchive, char' in d:
            return [(None, [('w', self.txt(i.ops[1], facts))])]
        if c in ('std::ostream::flush', 'std::basic_ostream::flush'):
            return [(None, [('flush',)])]
        eq = self.strcmp(i)
        if eq is not None:
            s = [cstr(self.prog, o, f) or facts.get(('lit', f.path(o))) for o in i.ops]
            k = [j for j in (0, 1) if s[j] is not None]
            if k:
                other = f.path(i.ops[1 - k[0]])
                return [(eq, [('eq', other, s[k[0]])]), (1 - eq, [('ne', other, s[k[0]])])]
        if c.endswith('shared_ptr::reset') and len(i.ops) == 1:
            return [(None, [('reset', f.path(i.ops[0]))])]
        if c.endswith('shared_ptr::operator=') or (c.endswith('shared_ptr::reset') and len(i.ops) == 2):
            return [(None, [('new', f.path(i.ops[0]))])]
        if c.endswith('shared_ptr::swap'):
            return [(None, [('new', f.path(i.ops[0])), ('new', f.path(i.ops[1]))])]
        if c == 'std::shared_ptr::shared_ptr' and f.path(i.ops[0])[0] == 'a0':
            return [(None, [('out', f.path(i.ops[1]) if len(i.ops) > 1 and f.path(i.ops[1])[0] != 'null' else None)])]
        return None

    def note(self, i, facts, env):
        if (SER + 'serialize<' + SER + 'binary_iarchive, char') in i.dem:
            return [(('lit', self.f.path(i.ops[1])), None)]
        n = Text.note(self, i, facts, env)
        return [x for x in n if x[0][1][0] != 'x']

    def add(self, st, evs):
        # connection state: 0 none/unknown, then pinged, flushed, answered, confirmed
        (facts, s) = st
        s = s if s else ('?', None, 0)
        conn, out, _ = s
        for e in evs:
            k = e[0]
            if k == 'reset':
                conn = 'none'
            elif k == 'new':
                conn = '?'
            elif k == 'w':
                conn = ('pinged', e[1]) if conn != 'none' else conn
            elif k == 'flush' and conn[0] == 'pinged':
                conn = ('flushed', conn[1])
            elif k == 'r' and conn != 'none':
                conn = ('read', conn[1], e[1]) if conn[0] == 'flushed' else 'bad'
            elif k == 'eq' and conn[0] == 'read' and conn[2] == e[1]:
                conn = ('ok', conn[1], e[2])
            elif k == 'ne' and conn[0] == 'read':
                conn = 'bad'
            elif k == 'out':
                out = conn if e[1] is not None else 'none'
        return (facts, (conn, out, 0))


def client(ctx, prog, control):
    fs = [f for f in prog.by_dem.values() if f.cls == RPC + 'rpc_client' and any('binary_iarchive, char' in i.dem for i in f.calls())]
    if len(fs) != 1:
        raise AnchorLost('the function of rpc_client that makes connections (%d candidates)' % len(fs))
    f = fs[0]
    e = Conn(prog, f)
    e.run()
    if e.truncated:
        raise AnchorLost('%s: too many paths' % f.short)
    n = okn = 0
    for i, facts, s, env in e.results:
        if i.op != 'ret':
            continue
        conn, out, _ = s if s else ('?', None, 0)
        n += 1
        out = conn if out is None else out
        if out == 'none':
            continue
        if out[0] == 'ok':
            okn += 1
            if (out[1], out[2]) not in control['ping']:
                ctx.bad('client-ping', f, i.where(), 'the client sends %r and expects %r; the server answers %s' % (out[1], out[2], sorted(control['ping'])))
            continue
        ctx.bad('client-ping', f, i.where(), 'a connection is handed out in state "%s", i.e. without a ping on it having been answered' % (out if isinstance(out, str) else out[0]))
    ctx.ob('get_connection: %d returning states, %d with a confirmed connection' % (n, okn), '%s:%d' % (f.file, f.line), n)
    if not okn:
        ctx.bad('client-ping', f, '%s:%d' % (f.file, f.line), 'no path hands out a connection')


class Err(Text):
    def __init__(self, prog, f):
        self.thrown = []
        Text.__init__(self, prog, f)

    def event(self, i, facts, env):
        f = self.f
        c = i.callee
        if c.endswith('operator>>') and len(i.ops) == 2:
            return [(None, [('tok', f.path(i.ops[1]))])]
        eq = self.strcmp(i)
        if eq is not None:
            s = [cstr(self.prog, o, f) for o in i.ops]
            if s[1] is not None:
                return [(eq, [('eq', f.path(i.ops[0]), s[1])]), (1 - eq, [('ne', f.path(i.ops[0]), s[1])])]
        m = re.match(r'^pfi::network::rpc::(\w+)::\1$', c)
        if m and len(i.ops) > 1:
            def src(o):
                d = f.defs.get(o)
                return f.path(d.ops[0]) if d is not None and d.op == 'load' and d.d.get('t') != 'ptr' else f.path(o)
            return [(None, [('make', m.group(1), tuple(src(o) for o in i.ops[1:]))])]
        if c == '__cxa_throw':
            return [(None, [('throw',)])]
        return None

    def unwind(self, st, i, env):
        if i.callee == '__cxa_throw':
            self.thrown.append(self.add(st, [('throw',)])[1])
            return None
        return None


def errors(ctx, prog, control):
    fs = [f for f in prog.by_dem.values() if any(i.callee == RPC + 'version_mismatch::version_mismatch' for i in f.calls()) and f.short.startswith(RPC) and not f.cls]
    if not fs:
        raise AnchorLost('the function that turns an error answer into an exception')
    f = fs[0]
    e = Err(prog, f)
    e.run()
    got = {}
    for tr in e.thrown + [r[2] for r in e.results]:
        mk = [x for x in tr if x[0] == 'make' and x[1] in ('method_not_found', 'version_mismatch')]
        if not mk:
            continue
        toks = [x[1] for x in tr if x[0] == 'tok']
        eqs = [x for x in tr if x[0] == 'eq']
        got.setdefault(mk[0][1], set()).add((eqs[-1][2] if eqs and eqs[-1][1] == (toks or [None])[0] else None, tuple(toks.index(a) if a in toks else None for a in mk[0][2])))
    w = '%s:%d' % (f.file, f.line)
    for cls, case, want, fmt in (('method_not_found', 'notfound', (1,), '%s {name}'), ('version_mismatch', 'mismatch', (1, 2), '%s {ver} {reqver}')):
        ctx.ob('the answer for %s is understood by the client' % case, w)
        g = got.get(cls, set())
        if len(g) != 1:
            ctx.bad('error-answers', f, w, 'no (or no single) answer makes the client throw %s' % cls)
            continue
        kw, ix = list(g)[0]
        if ix != want:
            ctx.bad('error-answers', f, w, '%s is made from the words %s of the answer' % (cls, ix))
        for t in control[case]:
            if t != fmt % kw:
                ctx.bad('error-answers', f, w, 'in the case "%s" the server answers %r, but the client throws %s on %r' % (case, t, cls, fmt % kw))

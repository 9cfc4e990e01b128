"""Marshalling stubs of every arity, instantiated through the public interface
with pairwise distinct opaque argument types."""
import re
from pfa import *
from trace import *

RULE = '''Client stub, on every path that returns normally: after obtaining a usable connection it writes the procedure name, the
client's version and the arguments 1..n in order, flushes before the first read, reads the result code, has compared it equal to
the success code, reads the result into the returned object, has found the stream good after that, and gives the connection back
exactly once, after the last read. On an exception the connection is not given back before everything was read.
Server stub: the arguments are read 1..n in order, and the function is called, once, only after the stream was found good after the
last argument; then the success code and exactly the function's result are written, in this order, and flushed. The success code
is the same text on both sides. The drivers instantiate all arities with distinct types, so passing arguments in another order
does not type-check.'''
ASSUME = ['std::function, std::bind and iostreams behave as specified', 'user-defined serialize functions are symmetric']
ARG = re.compile(r'^drv::Arg<(\d)>::serialize$')
SER = 'pfi::data::serialization::'


def argno(i):
    m = re.search(r'drv::Arg<(\d)>::serialize<', i.dem)
    return int(m.group(1)) if m else None


def arch(i):
    return 'w' if 'binary_oarchive' in i.dem else 'r'


class Stub(Trace):
    def note(self, i, facts, env):
        c = i.callee
        if c == 'std::__cxx11::basic_string::basic_string' and len(i.ops) >= 2:
            s = cstr(self.prog, i.ops[1])
            if s is not None:
                return [(('lit', self.f.path(i.ops[0])), s)]
        if re.match(r'^drv::(Arg|Ret)(<\d>)?::(Arg|Ret)$', c) and len(i.ops) == 2:
            return [(('copy', self.f.path(i.ops[0])), self.f.path(i.ops[1]))]
        return ()

    def src(self, p, facts):
        k = 0
        while ('copy', p) in facts and k < 5:
            p = facts[('copy', p)]
            k += 1
        return p

    def event(self, i, facts, env):
        f = self.f
        c = i.callee
        k = argno(i)
        if k is not None:
            return [(None, [(arch(i), k, self.src(f.path(i.ops[0]), facts))])]
        if 'drv::Ret::serialize<' in i.dem:
            return [(None, [(arch(i), 'ret', self.src(f.path(i.ops[0]), facts))])]
        if i.dem.startswith(SER + 'serialize(' + SER) or (SER + 'serialize<' + SER) in i.dem:
            if 'basic_string' in i.dem or ', char, ' in i.dem:
                p = f.path(i.ops[1])
                return [(None, [(arch(i), 'str', p, facts.get(('lit', p)))])]
            return [(None, [(arch(i), 'int', f.strip_casts(i.ops[1]))])]
        if c == 'std::ostream::flush' or c == 'std::basic_ostream::flush':
            return [(None, [('flush',)])]
        if c in ('std::operator!=', 'std::operator==') or c.endswith('basic_string::compare'):
            s = [cstr(self.prog, o) for o in i.ops]
            s = [x for x in s if x is not None]
            if s:
                p = [f.path(o) for o in i.ops if cstr(self.prog, o) is None]
                eq = 1 if c == 'std::operator==' else 0
                return [(eq, [('eq', p[0], s[0])]), (1 - eq, [('ne', p[0], s[0])])]
        if c == 'std::function::operator()':
            sig = re.search(r'std::function<(.*?) \((.*)\)>::operator\(\)', i.dem)
            ret = i.dem[len('std::function<'):]
            if ret.startswith('drv::Ret '):
                args = list(i.ops)
                sret = args.pop(i.d['sret']) if 'sret' in i.d else None
                return [(None, [('call', f.path(sret) if sret else None, tuple(self.src(f.path(a), facts) for a in args[1:]))])]
            if ret.startswith('int '):
                return [(None, [('ver', i.id)])]
            if ret.startswith('void ') and 'shared_ptr' in ret:
                return [(None, [('giveback',)])]
            if 'shared_ptr' in ret:
                return [(None, [('get',)])]
        if c.split(' ')[0] in self.noret:
            return [(None, [('noreturn',)])]
        return None

    def forking(self, i):
        return Trace.forking(self, i) or i.callee in ('std::operator!=', 'std::operator==') or i.callee.endswith('basic_string::compare')

    def throws(self, i):
        if i.d.get('nothrow'):
            return False
        return True


def check(ctx):
    import build
    try:
        prog = ctx.prog('rpc')
    except build.DriverFailed as e:
        ctx.ob('the stubs of all arities type-check with pairwise distinct argument types')
        ctx.bad('type-witness', 'rpc stubs', 'drivers/rpc.cpp', 'a stub of some arity does not type-check with distinct argument types:\n' + str(e)[:800])
        return
    # functions that never return normally
    noret = set()
    for f in prog.by_dem.values():
        e = Explorer(prog, f) if f.short.startswith('pfi::network::rpc::') and not f.cls else None
        if e is None:
            continue
        hit = []
        e.exit = lambda st, i, env: hit.append(i) if i.op == 'ret' else None
        e.run()
        if not hit and not e.truncated:
            noret.add(f.short)
    clients, servers = {}, {}
    codes = {}
    for f in prog.by_dem.values():
        if not entry(f) or not f.file or f.file.startswith('/'):
            continue
        dems = [i.dem for i in f.calls()]
        cl = any('drv::Ret::serialize<' in d and 'binary_iarchive' in d for d in dems)
        sv = any('drv::Ret::serialize<' in d and 'binary_oarchive' in d for d in dems)
        if not cl and not sv:
            continue
        e = Stub.__new__(Stub)
        e.noret = noret
        e.__init__(prog, f)
        e.run()
        if e.truncated or e.overlong:
            raise AnchorLost('%s: too many paths' % f.short)
        if cl:
            n = len([t for t in f.d.get('ditypes') or [] if re.match(r'^drv::Arg<\d', t)])
            clients[n] = f
            client(ctx, prog, f, n, e, codes)
        else:
            m = re.findall(r'drv::Arg<(\d)>', f.cls or f.dem)
            n = max([int(x) for x in m] or [0])
            servers[n] = f
            server(ctx, prog, f, n, e, codes)
    ctx.need('client_stubs', len(clients), 10)
    ctx.need('server_stubs', len(servers), 10)
    ctx.ob('the success code written by the server is the one the client expects', str(sorted(codes)))
    w = set(k[1] for k in codes if k[0] == 'w')
    r = set(k[1] for k in codes if k[0] == 'r')
    if w != r or len(w) != 1:
        ctx.bad('success-code', 'rpc stubs', codes[sorted(codes, key=str)[0]], 'success codes written %s, expected %s' % (sorted(map(str, w)), sorted(map(str, r))))


def client(ctx, prog, f, n, e, codes):
    args = {}
    for k, t in enumerate((f.d.get('ditypes') or [])[1:]):
        m = re.match(r'^drv::Arg<(\d)', t)
        if m:
            args[int(m.group(1))] = k
    shift = 1 if any(a.get('sret') for a in f.d['args']) or len(f.d['args']) > len((f.d.get('ditypes') or [])[1:]) else 0
    this = 'a%d' % shift
    paths = 0
    for i, facts, tr, env in e.results:
        b = lambda msg: ctx.bad('client-stub', f, i.where(), '%d-argument call: %s' % (n, msg))
        ks = [x[0] for x in tr]
        if i.op != 'ret':
            if 'giveback' in ks and any(x[0] in 'rw' for x in tr[ks.index('giveback'):] if len(x[0]) == 1):
                b('the connection is given back before the exchange is finished')
            continue
        if 'noreturn' in ks:
            continue       # infeasible: that function never returns
        paths += 1
        ws = [(k, x) for k, x in enumerate(tr) if x[0] == 'w']
        rs = [(k, x) for k, x in enumerate(tr) if x[0] == 'r']
        if 'get' not in ks or 'good' not in ks[:ws[0][0] if ws else 0]:
            b('the request is written without a usable connection having been obtained')
            continue
        want = ['str', 'int'] + list(range(1, n + 1))
        got = [x[1] for k, x in ws]
        if got != want:
            b('a normal return writes %s instead of name, version and the arguments in order' % got)
            continue
        if ws[0][1][2][0] != this:
            b('what is written first is not the name of the procedure')
        vers = [x[1] for x in tr if x[0] == 'ver']
        if ws[1][1][2] not in vers:
            b('what is written second is not the version of the client')
        for k, x in ws[2:]:
            if x[2][0] != 'a%d' % (args[x[1]] + shift):
                b('argument %d written is not the one passed in' % x[1])
        if [x[1] for k, x in rs] != ['str', 'ret']:
            b('a normal return reads %s instead of the result code and the result' % [x[1] for k, x in rs])
            continue
        if 'flush' not in ks[ws[-1][0]:rs[0][0]]:
            b('the request is not flushed before the answer is read')
        if rs[0][0] < ws[-1][0]:
            b('the answer is read before the whole request is written')
        eq = [x for x in tr[rs[0][0]:rs[1][0]] if x[0] == 'eq' and x[1] == rs[0][1][2]]
        if not eq:
            b('the call returns normally although the result code was not found to be the success code')
        else:
            codes[('r', eq[0][2])] = '%s:%d' % (f.file, f.line)
        if 'good' not in ks[rs[1][0]:] or 'bad' in ks[rs[1][0]:]:
            b('the call returns normally although the stream failed while the result was read')
        if f.d['args'] and rs[1][1][2][0] not in ('a0',) and ('copy', ('a0', 0)) not in facts:
            b('the result read is not the one returned')
        if ks.count('giveback') != 1:
            b('the connection is given back %d times' % ks.count('giveback'))
        elif ks.index('giveback') < rs[1][0]:
            b('the connection is given back before the answer is read')
    if not paths:
        ctx.bad('client-stub', f, '%s:%d' % (f.file, f.line), 'no path returns a result')
    ctx.ob('client stub with %d arguments: %d returning paths' % (n, paths), '%s:%d' % (f.file, f.line))


def server(ctx, prog, f, n, e, codes):
    ok = 0
    for i, facts, tr, env in e.results:
        b = lambda msg: ctx.bad('server-stub', f, i.where(), '%d-argument procedure: %s' % (n, msg))
        ks = [x[0] for x in tr]
        rs = [x[1] for x in tr if x[0] == 'r']
        if 'call' in ks:
            c = ks.index('call')
            if ks.count('call') > 1:
                b('the function is called more than once for one request')
            before = [x[1] for x in tr[:c] if x[0] == 'r']
            if before != list(range(1, n + 1)):
                b('the function is called after reading arguments %s' % before)
            last = max([k for k, x in enumerate(tr[:c]) if x[0] == 'r'] or [-1])
            if n and ('good' not in ks[last:c] or 'bad' in ks[last:c]):
                b('the function is called although the arguments were not found to have arrived completely')
            locs = dict((x[1], x[2]) for x in tr[:c] if x[0] == 'r')
            if [locs.get(k) for k in range(1, n + 1)] != list(tr[c][2]):
                b('the function is not called with the arguments received')
            if any(x[0] == 'w' for x in tr[:c]):
                b('part of the answer is written before the function has returned')
        if i.op == 'ret':
            if 'call' not in ks:
                b('the request is answered by returning normally without calling the function')
                continue
            ok += 1
            ws = [(k, x) for k, x in enumerate(tr) if x[0] == 'w']
            if [x[1] for k, x in ws] != ['str', 'ret']:
                b('the answer written is %s instead of the success code and the result' % [x[1] for k, x in ws])
                continue
            codes[('w', ws[0][1][3])] = '%s:%d' % (f.file, f.line)
            if ws[1][1][2] != tr[c][1]:
                b('the result written is not what the function returned')
            if 'flush' not in ks[ws[1][0]:]:
                b('the answer is not flushed')
    if not ok:
        ctx.bad('server-stub', f, '%s:%d' % (f.file, f.line), 'no path answers the request')
    ctx.ob('server stub with %d arguments' % n, '%s:%d' % (f.file, f.line))

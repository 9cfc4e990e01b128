"""System resources are released exactly once."""
import re
from pfa import *
from res import *

RULE = '''Handles returned by the system (descriptors, mappings, heap blocks from malloc and new[], address lists, database results,
statements and connections) are tracked as abstract values through locals and object members. (a) In every function: a handle
acquired there is, on every exit including exceptional ones, released exactly once or stored in an object / passed on / returned;
(b) for each class owning handles, over every reachable abstract state of its members and every public operation: no live handle
is overwritten or lost, destruction (and a constructor that throws) leaves none live, and no handle is released or used after
release.'''
ASSUME = ['memory exhaustion (std::bad_alloc) is not considered', 'system calls other than those listed do not release handles']

OWNERS = ['pfi::network::stream_socket', 'pfi::network::server_socket', 'pfi::system::mmapper::mmapper', 'pfi::data::code::decoder',
          'pfi::text::json::json_parser', 'pfi::database::mysql::mysql_statement',
          'pfi::database::mysql::mysql_connection_impl', 'pfi::database::postgresql::postgresql_connection_impl', 'pfi::database::postgresql::postgresql_result']


def check(ctx):
    prog = ctx.prog('own')

    def report(f, i, rule, msg):
        ctx.bad(rule, f, i.where(), msg)
    n = 0
    owned = set(OWNERS)
    # (b) owner classes
    for cls in OWNERS:
        fs = [f for f in prog.by_dem.values() if f.cls == cls]
        if not fs:
            raise AnchorLost('class %s is gone' % cls)
        n += owner(ctx, prog, cls, fs, report)
    ctx.need('owner_states', n, 18)
    # (a) every function
    na = 0
    nf = 0
    for f in prog.by_dem.values():
        if f.cls in owned and f.acc == 'public':
            continue
        if not any(i.callee in ACQ for i in f.calls()):
            continue
        if f.d.get('ncallers') and (f.acc != 'public' or f.d.get('link') == 'local'):
            continue       # analysed inlined in its callers
        nf += 1
        e = ResExplorer(prog, f, {}, report)
        e.run()
        if e.truncated:
            ctx.count('truncated')
            continue
        for i in e.sites:
            na += 1
            ctx.ob('the result of %s is released or handed on, on every exit' % i.callee, '%s (%s)' % (i.where(), f.short))
        last = f.short.split('::')[-1]
        ctor = bool(f.cls) and last == template_base(f.cls).split('::')[-1].split('<')[0]
        for i, st, v in e.results:
            held = set(x for k, x in st[0] if k[0] != '#' and (k[0] == 'this' or isinstance(k[0], tuple)))
            for h, k in e.leaked(st).items():
                if h == v or (h in held and not (i.op != 'ret' and ctor)):
                    continue
                ctx.bad('leak', f, i.where(), 'a %s handle is still open at this %s and nothing owns it' % (k, 'return' if i.op == 'ret' else 'exceptional exit'))
    ctx.need('acquiring_functions', nf, 5)
    ctx.need('acquisition_sites', na, 5)


def owner(ctx, prog, cls, fs, report):
    # the first passes only find out which members ever hold a handle (their other values, such as -1, then matter too)
    hcells, vts = set(), {}
    while True:
        k = len(hcells)
        owner_pass(ctx, prog, cls, fs, lambda *a: None, lambda *a: None, hcells, vts, False)
        if len(hcells) == k:
            break
    return owner_pass(ctx, prog, cls, fs, report, ctx.bad, hcells, vts, True)


def owner_pass(ctx, prog, cls, fs, report, bad, hcells, vts, final):
    base = cls.split('::')[-1]
    ctors, meths, dtor = [], [], None
    # non-public operations called by friends are operations too
    friends = set(i.dem for g in prog.by_dem.values() if g.cls != cls for i in g.calls() if i.callee.startswith(cls + '::'))
    for f in fs:
        last = f.short.split('::')[-1]
        if f.acc != 'public' and last != base and not last.startswith('~') and f.dem not in friends:
            continue
        if f.d.get('static'):
            continue
        oth = []
        for k, t in enumerate((f.d.get('ditypes') or [])[1:]):
            if k > 0 and pointee(t) == cls:
                oth.append('a%d' % k)
        if last == base:
            ctors.append((f, oth))
        elif last == '~' + base:
            dtor = f
        else:
            meths.append((f, oth))
    if not ctors:
        raise AnchorLost('%s has no constructor' % cls)
    if dtor is None:
        raise AnchorLost('%s has no destructor' % cls)
    seen = {}
    work = []

    def push(cells):
        for k, x in cells.items():
            if k[0] != '#' and x >= BASE:
                hcells.add(k)
        cells = dict((k, x) for k, x in cells.items() if k[0] == '#' or k in hcells or vts.get(k, 'i8') in ('i8', 'ptr'))
        # canonical handle numbers, so that states differ only in what can matter
        ren = {}
        live = dict((k[1], k) for k in cells if k[0] == '#')
        for k, x in sorted(cells.items(), key=str):
            if k[0] != '#' and x >= BASE and x not in ren:
                ren[x] = BASE + 4096 * len(ren) + (0 if x in live else 1 << 22)
        cells = dict(((('#', ren.get(k[1], k[1]), k[2]), x) if k[0] == '#' else (k, ren.get(x, x))) for k, x in cells.items())
        c = tuple(sorted(cells.items(), key=str))
        if c not in seen:
            seen[c] = 1
            work.append(cells)

    def run(f, cells, oth, isctor=False, isdtor=False):
        e = ResExplorer(prog, f, cells, report, others=tuple(oth))
        e.run()
        if e.truncated:
            raise AnchorLost('state space of %s truncated' % f.short)
        for i in f.insts():
            if i.op == 'store':
                c = e.cell(f.path(i.ops[1]))
                if c is not None:
                    vts[(subst(c[0]),) + c[1:]] = i.d.get('vt')
        if final:
            ctx.ob('%s from %s' % (f.short, 'an open object' if any(k[0] == '#' for k in cells) else 'an empty object'), '%s:%d' % (f.file, f.line))
        for i, st, v in e.results:
            cs = dict(st[0])
            ls = e.liveset(st)
            gone = isdtor or (isctor and i.op != 'ret')
            mine = dict((k, x) for k, x in cs.items() if k[0] == 'this' or (isinstance(k[0], tuple) and root_of(k[0]) == 'this'))
            his = dict((k, x) for k, x in cs.items() if k[0] == 'other' or (isinstance(k[0], tuple) and root_of(k[0]) == 'other'))
            for h, k in e.leaked(st).items():
                if h == v or h in his.values():
                    continue
                if gone:
                    bad('leak', f, i.where(), 'a %s handle owned by the object is still open after %s' % (k, 'destruction' if isdtor else 'a failed construction'))
                elif h not in mine.values():
                    bad('leak', f, i.where(), 'a %s handle is still open at this %s but no member holds it any more' % (k, 'return' if i.op == 'ret' else 'exception'))
            both = set(mine.values()) & set(his.values()) & set(ls)
            if both:
                bad('shared', f, i.where(), 'two objects own the same handle afterwards')
            if gone:
                continue
            nm = dict(mine)
            for h in set(mine.values()):
                if h in ls:
                    nm[('#', h, ls[h])] = 1
            push(nm)
            if his:
                nh = dict(((subst(k[0]),) + k[1:], x) for k, x in his.items())
                for h in set(nh.values()):
                    if h in ls:
                        nh[('#', h, ls[h])] = 1
                push(nh)
    for f, oth in ctors:
        if not oth:
            run(f, {}, oth, isctor=True)
    n = 0
    done = []
    while work:
        cells = work.pop()
        n += 1
        if n > 300:
            raise AnchorLost('too many abstract states of %s' % cls)
        done.append(cells)
        for f, oth in meths:
            if oth:
                for o in list(done)[:6]:
                    c = dict(cells)
                    c.update(rename(o))
                    run(f, c, oth)
            else:
                run(f, dict(cells), oth)
        run(dtor, dict(cells), [], isdtor=True)
        for f, oth in ctors:
            if oth:
                run(f, rename(cells), oth, isctor=True)
    if final:
        ctx.counts.setdefault('states_per_owner', {})[cls] = n
    return n


def root_of(k):
    while isinstance(k, tuple):
        k = k[1]
    return k


def subst(k):
    return 'this' if k == 'other' else ('L', subst(k[1]), k[2]) if isinstance(k, tuple) else k


def rename(cells):
    """the same object state seen as the other object, with its own handles"""
    hs = dict((k[1], k[1] + 8) for k in cells if k[0] == '#')

    def r(k):
        return 'other' if k == 'this' else ('L', r(k[1]), k[2]) if isinstance(k, tuple) else k
    out = {}
    for k, x in cells.items():
        if k[0] == '#':
            out[('#', hs[k[1]], k[2])] = 1
        else:
            out[(r(k[0]),) + k[1:]] = hs.get(x, x)
    return out

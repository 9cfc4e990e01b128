"""Reading a truncated or broken archive: nothing uninitialised is delivered, nothing unread is assigned, every read loop ends."""
import re
from pfa import *
import archive

# a read cut short fails the stream without making it bad
ENDED = dict((k, g) for k, g in archive.GOOD.items() if k != 'bad')


def goodness(f, v):
    return archive.goodness(f, v, 0, ENDED)


RULE = '''In each reading instantiation: (a) a scalar's target is stored only after the read and behind a branch on which the archive is usable;
(b) a local variable handed to an element read has been initialised on every path that reaches it (definite initialisation, forward dataflow over
the bytes of each local), so a failed read leaves a value and not garbage; (c) every cycle that reads from the archive can be left when the archive
has failed: with the branches on the archive's state resolved to "failed", some exit of the cycle depends on a counter, an iterator or a size and not
only on the data that was read; (d) an index taken from the archive is compared with the table's size before it selects an element.'''
ASSUME = ['istream::read leaves the buffer alone or fails the stream when it cannot fill it', 'a default-constructed element is initialised by its constructor']

SCALAR = re.compile(r'^(?:void )?pfi::data::serialization::serialize\(pfi::data::serialization::binary_iarchive&, ([\w ]+?)&\)$')
SIZE = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8,
        'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8, 'long double': 16}


def edges_when_failed(f):
    """CFG edges that remain when the archive has failed"""
    out = {}
    for b in range(len(f.blocks)):
        t = f.blocks[b][-1] if f.blocks[b] else None
        s = list(f.succs(b))
        if t is not None and t.op == 'br' and len(t.d.get('succ', [])) == 2:
            g = goodness(f, t.ops[0])
            if g is not None:
                s = [t.d['succ'][1 if g else 0]]
        out[b] = s
    return out


def reach_good(f, start_block, start_idx, target):
    """can target (block, idx) be reached from the start without an edge on which the archive is usable?"""
    if start_block == target[0] and start_idx < target[1]:
        return True
    ed = edges_when_failed(f)
    seen, work = set(), list(ed[start_block])
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == target[0]:
            return True
        work += ed[b]
    return False


def reads_of(f):
    return [i for i in f.calls() if re.search(r'istream::read\(|basic_istream<.*>::read\(|basic_istream<.*>::get\(|istream::get\(', i.dem or '')]


def scalar(ctx, f, t):
    rs = reads_of(f)
    st = [i for i in f.insts() if i.op == 'store' and f.path(i.ops[1])[0] == 'a1']
    if not rs or not st:
        return 0
    for s in st:
        ctx.ob('a %s is assigned only when it could be read' % t, f.short)
        before = [r for r in rs if f.dominates(r, s)]
        if not before:
            ctx.bad('assigned-unread', f, s.where(), 'a %s is assigned on a path that has not read it' % t)
            continue
        r = before[-1]
        if reach_good(f, r.blk, r.idx, (s.blk, s.idx)):
            ctx.bad('assigned-unread', f, s.where(), 'the %s is assigned even when the archive ended before it' % t)
    return 1


def transfer_in(f, i):
    """(path of the target, bytes) when the call reads a scalar into it"""
    m = SCALAR.match(i.dem or '')
    if m and m.group(1) in SIZE:
        return f.path(i.ops[1]), SIZE[m.group(1)]
    return None


def definite(ctx, prog, f):
    """(b): forward must-initialise analysis"""
    sites = [(i,) + transfer_in(f, i) for i in f.calls() if transfer_in(f, i)]
    sites = [s for s in sites if f.root_is_local(s[1][0])]
    if not sites:
        return 0
    sizes = dict((i.id, i.d.get('sz', 0)) for i in f.insts() if i.op == 'alloca')
    roots = set(s[1][0] for s in sites)

    def effect(i, state):
        if i.op == 'store':
            p = f.path(i.ops[1])
            if p[0] in roots:
                w = width(i.d.get('vt'))
                for k in range(w):
                    state.add((p[0], p[1] + k)) if isinstance(p[1], int) else None
        elif i.iscall:
            if (i.callee or '').startswith('llvm.lifetime'):
                return
            if transfer_in(f, i):
                return
            for o in i.ops:
                if isptr(o):
                    p = f.path(o)
                    if p[0] in roots:
                        for k in range(sizes.get(p[0], 0)):
                            state.add((p[0], k))
    ALL = None
    inn = {0: set()}
    order = f.rpo()
    changed = True
    while changed:
        changed = False
        for b in order:
            if b not in inn:
                continue
            st = set(inn[b])
            for i in f.blocks[b]:
                effect(i, st)
            for s in f.succs(b):
                if s not in inn:
                    inn[s] = set(st)
                    changed = True
                elif not inn[s] <= st:
                    inn[s] &= st
                    changed = True
    n = 0
    for i, p, w in sites:
        if i.blk not in inn or not isinstance(p[1], int):
            continue
        st = set(inn[i.blk])
        for j in f.blocks[i.blk]:
            if j is i:
                break
            effect(j, st)
        n += 1
        ctx.ob('the variable read into has a value already', f.short)
        if any((p[0], p[1] + k) not in st for k in range(w)):
            ctx.bad('uninitialised', f, i.where(), 'an element is read into a variable that has no value when the archive has ended')
    return n


def width(t):
    m = re.match(r'^i(\d+)$', t or '')
    if m:
        return (int(m.group(1)) + 7) // 8
    return {'float': 4, 'double': 8, 'ptr': 8, 'x86_fp80': 16}.get(t, 64)


def sccs(nodes, ed):
    """strongly connected components with a cycle"""
    nodes = set(nodes)
    out, seen = [], set()

    def reach(a):
        r, work = set(), [x for x in ed.get(a, []) if x in nodes]
        while work:
            x = work.pop()
            if x not in r:
                r.add(x)
                work += [y for y in ed.get(x, []) if y in nodes]
        return r
    rs = dict((a, reach(a)) for a in nodes)
    for a in sorted(nodes):
        if a in seen or a not in rs[a]:
            continue
        c = set(b for b in rs[a] if a in rs[b])
        seen |= c
        out.append(c)
    return out


def reading_call(prog, i):
    n = i.dem or ''
    return bool(transfer_pat.search(n))


transfer_pat = re.compile(r'serialize(<|\().*binary_iarchive|istream::(read|get)\(')


def counting(f, v, body, dep=0, seen=None):
    """does the condition depend on something that changes by itself: a phi of the loop, a decremented local, a container or iterator?"""
    seen = seen if seen is not None else set()
    v = str(v)
    if v in seen or dep > 30:
        return False
    seen.add(v)
    d = f.defs.get(v)
    if d is None:
        return False
    if d.op == 'phi':
        if d.blk in body:
            return True
        return any(counting(f, o, body, dep + 1, seen) for o in d.ops)
    if d.iscall:
        n = d.dem or ''
        if goodness(f, v) is not None:
            return False
        if re.search(r'^std::(__cxx11::)?(unordered_)?(map|set)<.*::size\(\) const$', n) and any(
                x.iscall and x.ops and re.search(r'::(insert|emplace|operator\[\])', x.dem or '') and f.path(x.ops[0]) == f.path(d.ops[0])
                for b in body for x in f.blocks[b]):
            return False       # grows with new keys only
        return True            # size(), iterator comparison, anything with a state of its own
    if d.op == 'load':
        p = f.path(d.ops[0])
        if f.root_is_local(p[0]):
            for i in f.insts():
                if i.op == 'store' and i.blk in body and f.path(i.ops[1]) == p and f.depends(i.ops[0], lambda x: x.op in ('add', 'sub')):
                    return True
            return False
        return True
    return any(counting(f, o, body, dep + 1, seen) for o in d.ops)


def loops_end(ctx, prog, f):
    ed = edges_when_failed(f)
    n = 0
    for h, body in sorted(f.loops().items()):
        if not any(i.iscall and reading_call(prog, i) for b in body for i in f.blocks[b]):
            continue
        n += 1
        ctx.ob('a loop that reads ends when the archive has ended', f.short)
        for c in sccs(body, ed):
            if not any(i.iscall and reading_call(prog, i) for b in c for i in f.blocks[b]):
                continue
            ok = False
            for b in c:
                t = f.blocks[b][-1]
                if any(s not in c for s in f.succs(b, exceptional=False)) and t.op in ('br', 'switch'):
                    if goodness(f, t.ops[0]) is not None:
                        if any(s not in c for s in ed[b]):
                            ok = True
                    elif counting(f, t.ops[0], c):
                        ok = True
            if not ok:
                wh = [i for b in sorted(c) for i in f.blocks[b] if i.iscall and reading_call(prog, i)][0]
                ctx.bad('endless', f, wh.where(), 'once the archive has ended this loop is left only on data that no longer arrives')
    return n


def bounded_index(ctx, prog, f):
    """(d) elements selected by a value the archive supplied"""
    n = 0
    for i in f.calls():
        if not re.search(r'std::(vector|deque)<.*>::operator\[\]\(', i.dem or ''):
            continue
        src = f.strip_casts(i.ops[1])
        d = f.defs.get(src)
        if d is None or d.op != 'load':
            continue
        # the value is read from an element of a container, not computed here
        p = f.path(d.ops[0])
        if f.root_is_local(p[0]):
            continue
        n += 1
        ctx.ob('an id from the archive is checked before it selects an element', f.short)
        if not guarded(f, i, p):
            ctx.bad('unchecked-index', f, i.where(), 'an id that came from the archive selects an element without a comparison with the size of the table')
    return n


def guarded(f, i, p):
    def about(v):
        return f.depends(v, lambda x: x.op == 'load' and same_place(f, f.path(x.ops[0]), p))

    def sized(v):
        return f.depends(v, lambda x: x.iscall and re.search(r'::(size|exist_id|length)\(', x.dem or ''))
    for j in f.insts():
        if j.op == 'br' and len(j.d.get('succ', [])) == 2 and f.dominates(j, i) or j.op == 'select':
            if about(j.ops[0]) and sized(j.ops[0]):
                return True
    for j in f.insts():
        if j.op == 'icmp' and about(j.ops[0]) | about(j.ops[1]) and sized(j.ops[0]) | sized(j.ops[1]):
            if any(b.op == 'br' and len(b.d.get('succ', [])) == 2 and f.depends(b.ops[0], lambda x: x is j) and f.dominates(j, i) for b in f.insts()):
                return True
    return False


def same_place(f, a, b):
    return a == b or (a[1:] == b[1:] and callname(f, a[0]) == callname(f, b[0]) is not None)


def callname(f, v):
    d = f.defs.get(v)
    return (d.dem, tuple(d.ops)) if d is not None and d.iscall else None


def check(ctx):
    prog = ctx.prog('ser')
    sc = di = lo = ix = 0
    for f in prog.funcs:
        m = SCALAR.match(f.dem or '')
        if m:
            sc += scalar(ctx, f, m.group(1))
            continue
        if 'binary_iarchive' not in (f.dem or '') or 'serialize' not in (f.dem or '') and 'operator&' not in f.dem:
            continue
        di += definite(ctx, prog, f)
        lo += loops_end(ctx, prog, f)
        ix += bounded_index(ctx, prog, f)
    ctx.need('scalar_readers', sc, 10)
    ctx.need('locals_read_into', di, 10)
    ctx.need('reading_loops', lo, 8)
    ctx.counts['archive_indices'] = ix

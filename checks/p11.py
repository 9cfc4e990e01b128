"""Serialised data reads back as it was written: count, elements, order and element layout of both directions are compared."""
import re
from pfa import *
import archive
from flow import Undecided
from walk import *

RULE = '''For each container, pair, array and scalar the library serialises, the writing and the reading instantiation (with opaque element types)
are summarised as a sequence of transfers with symbolic repetition counts. Writing must emit the container's size and then every element exactly
once in order; reading must take the count first, drop the old content, transfer exactly that many elements and put each into the container once,
in order; the type sequence of one element and the type of the count must agree in both directions. A scalar must be converted to little-endian,
written with its full width, read with its full width, converted back and assigned.'''
ASSUME = ['element types serialise symmetrically (they are opaque in the instantiations)', 'elements of sets and keys of maps are distinct, as the containers guarantee',
          'loops whose counting is not understood are reported as undecided, not as violations']

CONTS = ['std::vector<', 'std::deque<', 'std::list<', 'std::set<', 'std::map<', 'unordered_map<', 'unordered_set<', 'std::string', 'std::pair<']


def instances(prog):
    out = {}
    for f in prog.funcs:
        m = re.match(r'^(?:pfi::data::serialization::binary_([io])archive& )?pfi::data::serialization::operator&<pfi::data::serialization::binary_([io])archive, (.*)>\(', f.dem)
        if m:
            k = m.group(3).replace('std::__cxx11::', 'std::')
            k = 'std::string' if k.startswith('std::basic_string<char,') else k
            out[(k, 'r' if m.group(2) == 'i' else 'w')] = f
    return out


def elem_of(x):
    """('elem', base, step, off) an operand is or copies, or ('loc', id, off)"""
    while isinstance(x, tuple):
        if x[:1] == ('elem',):
            return x
        if x[:1] in (('val',), ('copy',)):
            x = x[1]
        elif x[:1] == ('loc',):
            if len(x) > 3 and isinstance(x[3], tuple) and x[3][:1] == ('copy',):
                x = x[3][1]
            else:
                return x
        else:
            return None
    return None


def summary(ctx, prog, f, d, kind, fixed=None):
    """-> (count type, element types) or None when undecided; reports violations"""
    w = Walk(prog, f, d, nfix=fixed)
    res = w.run()
    sums = set()
    verb = 'reading' if d == 'r' else 'writing'
    for st in res:
        ev = [e for e in st.ev if e[0] not in ('cond', 'clear')]
        if ('badarchive',) in ev:
            continue
        if fixed is None:
            if not ev:
                if all(c[1] is None for c in st.ev if c[0] == 'cond') and not any(c[0] == 'cond' for c in st.ev):
                    ctx.bad('no-transfer', f, f.file, '%s %s transfers nothing' % (verb, kind))
                raise Unknown('nothing transferred on a path')
            if ev[0][0] != 'tr' or not re.search(r'int|long|short|char', ev[0][1]):
                raise Unknown('the first transfer is not a count')
            cnt = ev[0]
            if d == 'w' and cnt[2] != sym('s0'):
                if cnt[2] is None or not isform(cnt[2]):
                    raise Unknown('count not understood')
                ctx.bad('count-written', f, cnt[3], 'the count written is %s, the container holds s0 elements' % show(cnt[2]))
                return None
            ev = ev[1:]
            want = sym('n') if d == 'r' else sym('s0')
        else:
            cnt = ('', '')
            want = F(fixed)
        done = F(0)
        types = None
        sure = True
        for e in ev:
            if e[0] == 'loop':
                _, trips, ok, seqs, cur0, delta, h = e
            else:
                raise Unknown('transfer outside a loop')
            seqs = [s for s in seqs if ('badarchive',) not in s]
            trs = set(tuple(x[1] for x in s if x[0] == 'tr') for s in seqs)
            if trs == {()}:
                if any(x[0] == 'ins' for s in seqs for x in s):
                    raise Unknown('elements inserted by a separate loop')
                continue
            if len(trs) != 1:
                ctx.bad('irregular', f, '%s' % f.file, '%s %s: iterations transfer different sequences: %s' % (verb, kind, sorted(trs)))
                return None
            if types is not None and types != list(trs)[0]:
                raise Unknown('loops transfer different elements')
            types = list(trs)[0]
            sure = sure and ok
            for s in seqs:
                one(ctx, f, d, kind, s, done, cur0, delta, fixed)
            done = lin(done, trips)
        if types is None:
            ctx.bad('no-elements', f, f.file, '%s %s transfers no element' % (verb, kind))
            return None
        if done != want:
            ctx.bad('trips', f, f.file, '%s %s transfers %s elements instead of %s' % (verb, kind, show(done), show(want)))
            return None
        if not sure:
            if d == 'r' and fixed is None and any(e[0] == 'loop' and not e[2] and e[1] == lin(sym('n'), sym('s0'), -1) for e in ev) and all(c[1] is not None for c in st.ev if c[0] == 'cond'):
                ctx.bad('stale', f, f.file, 'reading %s into one that holds more elements than announced keeps the surplus and reads too much' % kind)
                return None
            raise Unknown('loop bounds not ordered')
        if fixed is None:
            end = st.cur
            if d == 'r' and end != sym('n'):
                ctx.bad('size-after-read', f, f.file, 'after reading, %s holds %s elements where %s were announced' % (kind, show(end), 'n'))
                return None
            if d == 'w' and end != sym('s0'):
                ctx.bad('changed-by-write', f, f.file, 'writing changes the size of %s from s0 to %s' % (kind, show(end)))
                return None
        sums.add((cnt[1], types))
    if len(sums) != 1:
        raise Unknown('paths disagree')
    return sums.pop()


def one(ctx, f, d, kind, s, done, cur0, delta, fixed):
    """one iteration's transfers"""
    ordered = not re.match(r'.*(set|map)<', kind)
    ins = [x for x in s if x[0] == 'ins']
    for k, x in enumerate(s):
        if x[0] != 'tr':
            continue
        t = elem_of(x[2])
        if t is None:
            if d == 'w' and isinstance(x[2], tuple) and isform(x[2]) and cst(x[2]) is not None:
                ctx.bad('constant', f, x[3], 'writing %s writes the constant %s instead of an element' % (kind, show(x[2])))
            raise Unknown('transferred object not understood')
        if t[:1] == ('elem',):
            if t[1] is None or t[2] is None:
                raise Unknown('position of an element not understood')
            if t[2] != 1 or t[1] != done:
                ctx.bad('position', f, x[3], '%s %s: iteration i transfers element %s + %d*i; expected %s + i' % (
                    'reading' if d == 'r' else 'writing', kind, show(t[1]), t[2], show(done)))
                return
            if d == 'r' and ins:
                raise Unknown('element read in place and inserted')
            continue
        if d == 'w':
            raise Unknown('written object is not an element')
        # read into a local: it has to reach the container afterwards, once
        hits = []
        for j, y in enumerate(s):
            if y[0] == 'ins':
                q = y[2]
                while isinstance(q, tuple) and q and q[0] in ('copy', 'loc'):
                    if q[0] == 'loc' and q[1] == t[1]:
                        hits.append(j)
                        break
                    q = q[1] if q[0] == 'copy' else (q[3] if len(q) > 3 else None)
                else:
                    if q is None or q == ():
                        raise Unknown('inserted object not understood')
                    if isinstance(q, tuple) and q[:1] == ('readval',):
                        hits.append(j)
            elif y[0] == 'put':
                hits.append(j)
        if not hits:
            if ins:
                raise Unknown('inserted object is not the one read')
            ctx.bad('dropped', f, x[3], 'reading %s: an element is read but never put into the container' % kind)
            return
        if all(j < k for j in hits):
            ctx.bad('insert-order', f, x[3], 'reading %s: the element is inserted before it is read' % kind)
            return
        if ordered and fixed is None and cur0 != done:
            ctx.bad('append-position', f, x[3], 'reading %s appends at position %s, %s elements have been read' % (kind, show(cur0), show(done)))
            return
        if ordered and any(s[j][0] == 'ins' and s[j][1].endswith('?') for j in hits):
            raise Unknown('insert position not understood')
        if ordered and any(s[j][0] == 'ins' and s[j][1].endswith('front') for j in hits):
            ctx.bad('reversed', f, x[3], 'reading %s inserts at the front: the order is reversed' % kind)
            return


def straight(ctx, prog, f, d, kind):
    """pairs: transfers outside loops, each on its member"""
    w = Walk(prog, f, d)
    seqs = set()
    for st in w.run():
        ev = [e for e in st.ev if e[0] not in ('cond', 'clear')]
        if ('badarchive',) in ev:
            continue
        if any(e[0] != 'tr' for e in ev):
            raise Unknown('loop in a pair')
        seqs.add(tuple((e[1], e[2]) for e in ev))
    if len(seqs) != 1:
        raise Unknown('paths disagree')
    return seqs.pop()


def check(ctx):
    prog = ctx.prog('ser')
    inst = instances(prog)
    n = und = 0
    for kind in sorted(set(k for k, _ in inst)):
        r, w = inst.get((kind, 'r')), inst.get((kind, 'w'))
        short_kind = re.sub(r', std::(allocator|less|hash|equal_to)<.*', '>', kind) if '<' in kind else kind
        if r is None or w is None:
            continue
        if 'driver_ser::A' not in kind and not kind.startswith('std::string'):
            continue
        if kind.startswith('std::pair<'):
            try:
                a, b = straight(ctx, prog, r, 'r', kind), straight(ctx, prog, w, 'w', kind)
            except Unknown as e:
                und += 1
                ctx.notes.append('%s: %s' % (kind, e))
                continue
            n += 1
            ctx.ob('both directions transfer first, then second', short_kind)
            ta, tb = [x[0] for x in a], [x[0] for x in b]
            if 'driver_ser::B' not in kind:
                if ta != tb:
                    ctx.bad('layout', r, r.file, 'reading %s transfers %s, writing transfers %s' % (short_kind, ta, tb))
            elif a != b:
                ctx.bad('layout', r, r.file, 'reading %s transfers %s, writing transfers %s' % (short_kind, [x[0] for x in a], [x[0] for x in b]))
            elif sorted(x[0] for x in a) != ['A', 'B']:
                ctx.bad('layout', r, r.file, '%s transfers %s instead of both members' % (short_kind, [x[0] for x in a]))
            continue
        if not any(kind.startswith(c) or ('::' + c) in kind for c in CONTS) or 'basic_iostream' in kind:
            continue
        pair = []
        for d, f in (('r', r), ('w', w)):
            try:
                pair.append(summary(ctx, prog, f, d, short_kind))
                n += 1
                ctx.ob('%s moves the announced number of elements, each once and in order' % ('reading' if d == 'r' else 'writing'), short_kind)
            except Unknown as e:
                if getattr(e, 'early', None):
                    ctx.bad('early-exit', f, e.early, '%s %s stops at a fixed number, whatever the count' % ('reading' if d == 'r' else 'writing', short_kind))
                und += 1
                ctx.notes.append('%s %s: %s' % (d, short_kind, e))
                pair.append(None)
        if all(pair):
            ctx.ob('count type and element layout agree in both directions', short_kind)
            if pair[0] != pair[1]:
                ctx.bad('layout', r, r.file, '%s: reading expects count %s and elements %s, writing produces count %s and elements %s' % (
                    short_kind, pair[0][0], list(pair[0][1]), pair[1][0], list(pair[1][1])))
            if WIDTH.get(pair[1][0], 8) < 4:
                ctx.bad('count-width', w, w.file, '%s: the count is written as %s, too narrow for its size' % (short_kind, pair[1][0]))
            want = ('A', 'B') if 'map<' in kind else (('char',) if kind.startswith('std::string') else ('A',))
            if tuple(sorted(pair[1][1])) != want and pair[0] == pair[1]:
                ctx.bad('layout', w, w.file, '%s transfers %s per element instead of %s' % (short_kind, list(pair[1][1]), list(want)))
    # fixed-size arrays
    got = {}
    for f in prog.funcs:
        m = re.search(r'serialize<pfi::data::serialization::binary_([io])archive, driver_ser::A, 4ul>', f.dem)
        if m:
            d = 'r' if m.group(1) == 'i' else 'w'
            try:
                got[d] = summary(ctx, prog, f, d, 'T[4]', fixed=4)
                n += 1
                ctx.ob('every array element is transferred once, in order', f.short)
            except Unknown as e:
                und += 1
                ctx.notes.append('array: %s' % e)
    r, w = [inst.get((k, d)) for d in 'rw' for k in sorted(set(k for k, _ in inst)) if 'iostream' in k][:2] if any('iostream' in k for k, _ in inst) else (None, None)
    if r is not None and w is not None:
        try:
            archive.check_stream(ctx, prog, w, r)
            n += 1
        except Undecided as e:
            und += 1
            ctx.notes.append('iostream: %s' % e)
    interned(ctx, prog, inst)
    scal = scalars(ctx, prog)
    ctx.counts['undecided'] = und
    ctx.need('containers_decided', n + und, 16)
    ctx.need('scalars', scal, 20)
    if ctx.notes:
        ctx.samples.extend('undecided ' + x for x in ctx.notes)


def interned(ctx, prog, inst):
    """a dictionary that was read completely takes the place of the old one, both directions of it"""
    for (kind, d), f in sorted(inst.items()):
        if not kind.startswith('pfi::data::intern<') or d != 'r':
            continue
        ctx.ob('a dictionary read completely replaces the old one', kind.split(',')[0])
        this = 'a1'
        done = set()
        for h, body in f.loops().items():
            for b in body:
                t = f.blocks[b][-1]
                if t.op != 'br' or not t.ops:
                    continue
                c = f.defs.get(t.ops[0])
                while c is not None and c.op == 'xor':
                    c = f.defs.get(c.ops[0])
                if c is None or not c.iscall or c.callee.split('::')[-1].split('<')[0] not in ('operator!=', 'operator=='):
                    continue
                if not f.depends(t.ops[0], lambda x: x.iscall and x.callee.split('::')[-1] in ('end', 'cend'), memory=True):
                    continue
                done |= set(x for x in t.d['succ'] if x not in body)
        if not done:
            ctx.notes.append('%s: no loop over the entries' % kind)
            continue
        members = {}
        for i in f.calls():
            if i.callee.split('::')[-1].split('<')[0] in ('swap', 'operator=', 'assign', 'serialize', 'operator&'):
                for o in i.ops:
                    if isptr(o) and f.path(o)[0] == this:
                        members.setdefault(f.path(o)[1], set()).add(i.blk)
        if not members:
            ctx.bad('not-taken', f, f.file, 'the dictionary read never reaches the object')
            continue
        for off, bl in sorted(members.items()):
            seen, work = set(), [b for b in done if b not in bl]
            while work:
                b = work.pop()
                if b in seen:
                    continue
                seen.add(b)
                if f.blocks[b][-1].op == 'ret':
                    ctx.bad('not-taken', f, f.blocks[b][-1].where(), 'a dictionary that was read completely does not replace the old one on every path')
                    break
                work += [x for x in f.succs(b, exceptional=False) if x not in bl]
        if len(members) < 2:
            ctx.bad('not-taken', f, f.file, 'only one of the two tables of the dictionary is replaced')


WIDTH = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8,
         'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8, 'long double': 16}


def scalars(ctx, prog):
    n = 0
    for f in prog.funcs:
        m = re.match(r'^(?:void )?pfi::data::serialization::serialize\(pfi::data::serialization::binary_([io])archive&, ([\w ]+?)(&?)\)$', f.dem)
        if not m or m.group(2) not in WIDTH:
            continue
        t, wd = m.group(2), WIDTH[m.group(2)]
        try:
            (reader if m.group(1) == 'i' else writer)(ctx, prog, f, t, wd)
        except Unknown as e:
            ctx.notes.append('%s: %s' % (f.short, e))
        n += 1
    return n


def local_value(f, v, depth=0):
    """values a local cell can hold when read: list of operands stored into it"""
    return [i for i in f.insts() if i.op == 'store' and f.path(i.ops[1]) == v]


def conv(f, v, which, dep=0):
    """does value v come out of to_little/from_little?  -> 'yes', 'no', None"""
    d = f.defs.get(v)
    if dep > 12:
        return None
    if v.startswith('a'):
        return 'no'
    if d is None:
        return None
    if d.iscall:
        n = d.dem or ''
        if 'endian::%s_little' % which in n:
            return 'yes'
        if 'endian::' in n and 'little' in n:
            return 'yes'      # its own inverse
        if 'endian::' in n and 'big' in n:
            return 'no'
        return None
    if d.op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'icmp', 'and'):
        return conv(f, d.ops[0], which, dep + 1)
    if d.op == 'load':
        p = f.path(d.ops[0])
        if f.root_is_local(p[0]):
            ss = local_value(f, p)
            ss = [s for s in ss if f.dominates(s, d) or not f.dominates(d, s)]
            # the last dominating store decides
            dom = [s for s in ss if f.dominates(s, d)]
            last = [s for s in dom if not any(x is not s and f.dominates(s, x) for x in dom)]
            if last:
                return conv(f, last[0].ops[0], which, dep + 1)
            return 'no'
        return 'no'
    return None


def writer(ctx, prog, f, t, wd):
    ws = [i for i in f.calls() if re.search(r'ostream::(write|put)\(|basic_ostream<.*>::(write|put)\(|streambuf::sputn', i.dem or '')]
    if len(ws) != 1:
        if not ws:
            raise Unknown('no direct write')
        raise Unknown('several writes')
    w = ws[0]
    ctx.ob('%s is written with %d bytes, little-endian' % (t, wd), f.short)
    if '::put(' in w.dem:
        k, p = 1, None
    else:
        k = f.const(w.ops[2])
        p = f.path(w.ops[1])
    if k is None:
        raise Unknown('length not constant')
    if k != wd:
        ctx.bad('width', f, w.where(), 'a %s is %d bytes wide; %d are written' % (t, wd, k))
        return
    if wd > 1 and p is not None and f.root_is_local(p[0]):
        ss = [s for s in local_value(f, p) if f.dominates(s, w)]
        last = [s for s in ss if not any(x is not s and f.dominates(s, x) for x in ss)]
        if last and conv(f, last[0].ops[0], 'to') == 'no':
            ctx.bad('byte-order', f, w.where(), 'a %s is written without conversion to little-endian' % t)


def reader(ctx, prog, f, t, wd):
    ws = [i for i in f.calls() if re.search(r'istream::(read)\(|basic_istream<.*>::(read)\(', i.dem or '')]
    if len(ws) != 1:
        raise Unknown('not one read')
    w = ws[0]
    ctx.ob('%s is read with %d bytes and converted back' % (t, wd), f.short)
    k = f.const(w.ops[2])
    if k is None:
        raise Unknown('length not constant')
    if k != wd:
        ctx.bad('width', f, w.where(), 'a %s is %d bytes wide; %d are read' % (t, wd, k))
        return
    st = [i for i in f.insts() if i.op == 'store' and f.path(i.ops[1]) == ('a1', 0)]
    p = f.path(w.ops[1])
    if p[0] == 'a1':
        raise Unknown('read in place')
    if not st:
        ctx.bad('not-assigned', f, w.where(), 'the %s read is never assigned' % t)
        return
    for s in st:
        if wd > 1 and conv(f, s.ops[0], 'from') == 'no':
            ctx.bad('byte-order', f, s.where(), 'a %s is assigned without conversion from little-endian' % t)

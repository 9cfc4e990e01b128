"""JSON reader: the look-ahead character, numbers, the growing string buffer, and the tree the events build."""
import re
from pfa import *
from bytecodec import Undecided

IT = re.compile(r'operator(!=|==)<char.*istreambuf_iterator|istreambuf_iterator<char.*>::equal\(')


def lookfield(prog):
    """offset of the look-ahead character in json_parser: what peek() stores the decoded character into"""
    for f in prog.funcs:
        if re.match(r'^pfi::text::json::json_parser::peek\(\)', f.dem or ''):
            for i in f.insts():
                if i.op == 'store':
                    d = f.defs.get(i.ops[0])
                    g = f.defs.get(i.ops[1])
                    if d is not None and d.iscall and 'chars_to_uchar' in (d.dem or '') and g is not None and g.op == 'getelementptr' and 'json_parser' in g.d.get('sty', ''):
                        return g.d.get('off', 0)
    return None


def isfield(f, v, off):
    d = f.defs.get(v)
    if d is None or d.op != 'load':
        return False
    g = f.defs.get(d.ops[0])
    return g is not None and g.op == 'getelementptr' and 'json_parser' in g.d.get('sty', '') and not g.d.get('var') and g.d.get('off', 0) == off


def pending(f, v, off):
    """condition on the look-ahead character -> True if it holds when a character is pending, False if when none is, None otherwise"""
    d = f.defs.get(v)
    if d is None or d.op != 'icmp':
        return None
    for a, b, p in ((d.ops[0], d.ops[1], d.d['p']), (d.ops[1], d.ops[0], {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(d.d['p'], d.d['p']))):
        c = f.const(b)
        if c is None or not isfield(f, a, off):
            continue
        if c & 0xffffffff == 0xffffffff:
            return {'eq': False, 'ne': True, 'sle': False, 'sgt': True}.get(p)
        if c == 0:
            return {'slt': False, 'sge': True}.get(p)
    return None


def lookahead(ctx, prog, f, off):
    """typestate of the look-ahead: E (no character held) / F (held). The end of the stream is the end of the input only in E."""
    init = frozenset('EF')
    ins = {0: init}
    work = [0]
    bad = {}
    tests = set()
    while work:
        b = work.pop()
        s = ins[b]
        blk = f.blocks[b]
        for i in blk:
            if i.iscall:
                m = re.search(r'json_parser::(\w+)\(', i.dem or '')
                n = m.group(1) if m else None
                if n in ('peek', 'speek'):
                    s = frozenset('F')
                elif n in ('incr', 'match', 'smatch', 'parse_hex'):
                    s = frozenset('E')
                elif n:
                    s = init
                elif IT.search(i.dem or ''):
                    tests.add(i.id)
                    if 'F' in s:
                        bad[i.id] = i
                    else:
                        bad.pop(i.id, None)
            elif i.op == 'store':
                g = f.defs.get(i.ops[1])
                if g is not None and g.op == 'getelementptr' and 'json_parser' in g.d.get('sty', '') and g.d.get('off', 0) == off and not g.d.get('var'):
                    c = f.const(i.ops[0])
                    s = frozenset('F') if c is None else frozenset('E' if c & 0xffffffff == 0xffffffff else 'F')
        t = blk[-1]
        for k, x in enumerate(f.succs(b, exceptional=False)):
            q = s
            if t.op == 'br' and t.ops and len(t.d['succ']) == 2:
                p = pending(f, t.ops[0], off)
                if p is not None:
                    held = p == (x == t.d['succ'][0])
                    q = q & frozenset('F' if held else 'E')
            if not q:
                continue
            o = ins.get(x, frozenset())
            if not q <= o:
                ins[x] = o | q
                work.append(x)
    for i in tests:
        ctx.ob('the end of the stream is asked for only when no character is held', f.short)
    for i in bad.values():
        # harmless when the held character is asked for right afterwards
        if later_test(f, i, off):
            continue
        ctx.bad('lookahead', f, i.where(), 'the end of the stream is taken for the end of the input although a character already read may be held back')
        return


def later_test(f, i, off):
    b = i.block if hasattr(i, 'block') else next(k for k, blk in enumerate(f.blocks) if i in blk)
    seen, work = set(), [(b, True)]
    while work:
        x, first = work.pop()
        blk = f.blocks[x]
        start = blk.index(i) + 1 if first else 0
        stop = False
        for j in blk[start:]:
            if j.op == 'load' and isfield(f, j.id, off):
                return True
            if j.iscall and 'lifetime' not in (j.callee or ''):
                stop = True
                break
        if stop:
            continue
        for y in f.succs(x, exceptional=False):
            if y not in seen:
                seen.add(y)
                work.append((y, False))
    return False


CONV = {'strtod': 'number', 'strtold': 'number', 'strtof': 'number', 'strtoll': 'integer', 'strtol': 'integer', '__isoc23_strtoll': 'integer', '__isoc23_strtol': 'integer',
        'strtoull': 'integer', '__isoc23_strtoull': 'integer', 'atof': 'number', 'atoi': 'integer', 'atol': 'integer', 'atoll': 'integer'}


def through(f, v, ops):
    """the chain of conversions down to a call"""
    seen, out, work = set(), [], [(v, ())]
    while work:
        x, h = work.pop()
        if (x, h) in seen or len(h) > 8:
            continue
        seen.add((x, h))
        d = f.defs.get(x)
        if d is None:
            out.append((x, None, h))
        elif d.op == 'phi':
            work += [(y, h) for y in d.ops]
        elif d.op in ops:
            work.append((d.ops[0], h + (d.op,)))
        else:
            out.append((x, d, h))
    return out


def number_values(ctx, prog, f, slot):
    """errno is reset before each conversion whose range is then asked for; what is reported is the converted value itself; the text converted is the text consumed"""
    convs = [i for i in f.insts() if i.iscall and i.callee in CONV]
    asks = [i for i in f.insts() if i.op == 'icmp' and f.const(i.ops[1]) in (34, 0) and f.defs.get(i.ops[0]) is not None and f.defs[i.ops[0]].op == 'load'
            and errno(f, f.defs[i.ops[0]].ops[0])]
    resets = [i for i in f.insts() if i.op == 'store' and f.const(i.ops[0]) == 0 and errno(f, i.ops[1])]
    for c in convs:
        if asks:
            ctx.ob('errno is cleared before %s' % c.callee, f.short)
            if not any(f.dominates(r, c) for r in resets):
                # cleared on every path?
                if not covered(f, c, resets):
                    ctx.bad('errno', f, c.where(), 'errno is not cleared before %s: an ERANGE left over from earlier rejects a valid number' % c.callee)
                    return
    n = 0
    for i in f.insts():
        if not i.iscall or i.callee:
            continue
        s = slot(i)
        if s not in ('number', 'integer'):
            continue
        for v, d, h in through(f, i.ops[1], ('sext', 'zext', 'trunc', 'fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui')):
            if d is None or not d.iscall or d.callee not in CONV:
                raise Undecided('the reported number is computed')
            n += 1
            ctx.ob('the value of %s is reported as it is' % d.callee, f.short)
            lossy = [x for x in h if x in ('trunc', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui')]
            if lossy or CONV[d.callee] != s or d.callee in ('strtof', 'atoi'):
                ctx.bad('value', f, i.where(), 'a number read by %s is reported as %s%s: digits are lost' % (d.callee, s, ' after ' + lossy[0] if lossy else ''))
                return
    if not n:
        raise Undecided('no number is reported')
    # balance of characters appended and consumed
    strs = set()
    for c in convs:
        for v, d, h in through(f, c.ops[0], ()):
            if d is not None and d.iscall and re.search(r'basic_string::(c_str|data)$', d.callee or ''):
                strs.add(d.ops[0])
    if len(strs) != 1:
        raise Undecided('text of a number')
    s0 = strs.pop()
    ins, work = {0: frozenset([0])}, [0]
    while work:
        b = work.pop()
        s = ins[b]
        for i in f.blocks[b]:
            if not i.iscall:
                continue
            m = re.search(r'json_parser::(\w+)\(', i.dem or '')
            n = m.group(1) if m else None
            if n in ('incr', 'match'):
                s = frozenset(x - 1 for x in s)
            elif n == 'smatch':
                raise Undecided('white space within a number')
            elif n == 'error':
                s = frozenset()
            elif i.ops and i.ops[0] == s0:
                k = (i.callee or '').split('::')[-1]
                if k in ('operator+=', 'push_back') and ('(char)' in i.dem):
                    s = frozenset(x + 1 for x in s)
                elif k not in ('c_str', 'data', 'size', 'length', 'empty', 'basic_string', '~basic_string', 'reserve'):
                    raise Undecided('text of a number: %s' % k)
            if i in convs:
                ctx.ob('the text converted is the text consumed', f.short)
                if any(s):
                    ctx.bad('consumed', f, i.where(), 'the text converted has %d character%s %s than were consumed' % (abs(min(s) or max(s)), '', 'fewer' if min(s) < 0 else 'more'))
                    return
            if any(abs(x) > 1 for x in s):
                ctx.bad('consumed', f, i.where(), 'a character of a number is %s' % ('consumed without being kept' if min(s) < 0 else 'kept without being consumed'))
                return
        for x in f.succs(b, exceptional=False):
            o = ins.get(x, frozenset())
            if not s <= o:
                ins[x] = o | s
                work.append(x)
    kinds(ctx, f, convs, s0)


def kinds(ctx, f, convs, s0):
    """after a point or an exponent the text is converted as a fraction, otherwise as an integer"""
    seen, work = set(), [(0, (), False)]
    flags = set(i.id for i in f.insts() if i.op == 'phi' and all(f.const(o) is not None or (f.defs.get(o) is not None and f.defs[o].op == 'phi') for o in i.ops))

    while work:
        b, env, frac = work.pop()
        if (b, env, frac) in seen:
            continue
        seen.add((b, env, frac))
        if len(seen) > 20000:
            raise Undecided('number: control flow')
        e = dict(env)
        dead = False
        for i in f.blocks[b]:
            if i.iscall and 'json_parser::error(' in (i.dem or ''):
                dead = True
                break
            if i.iscall and i.ops and i.ops[0] == s0 and re.search(r'(operator\+=|push_back)\(char\)', i.dem or ''):
                c = f.const(i.ops[1])
                if c is not None and chr(c & 255) in '.eE':
                    frac = True
                elif c is None and exponent(f, i):
                    frac = True
            if i in convs:
                ctx.ob('%s after %s' % (i.callee, 'a point or an exponent' if frac else 'digits only'), f.short)
                if frac != (CONV[i.callee] == 'number'):
                    ctx.bad('kind', f, i.where(), 'a number %s a point or an exponent is converted by %s' % ('with' if frac else 'without', i.callee))
                    return
        if dead:
            continue
        t = f.blocks[b][-1]
        nxt = f.succs(b, exceptional=False)
        if t.op == 'br' and t.ops and len(t.d['succ']) == 2:
            v = flag(f, t.ops[0], e)
            if v is not None:
                nxt = [t.d['succ'][0 if v else 1]]
        for x in nxt:
            e2 = dict(e)
            for i in f.blocks[x]:
                if i.op != 'phi':
                    break
                if i.id in flags:
                    o = [i.ops[k] for k, p in enumerate(i.d['in']) if p == b]
                    c = (f.const(o[0]) if f.const(o[0]) is not None else e.get(o[0])) if o else None
                    if c is None:
                        e2.pop(i.id, None)
                    else:
                        e2[i.id] = c & 1
            work.append((x, tuple(sorted(e2.items())), frac))


def flag(f, v, env):
    if v in env:
        return bool(env[v])
    d = f.defs.get(v)
    if d is None:
        c = f.const(v)
        return None if c is None else bool(c)
    if d.op in ('trunc', 'zext', 'freeze'):
        return flag(f, d.ops[0], env)
    if d.op == 'icmp' and f.const(d.ops[1]) == 0 and d.d['p'] in ('eq', 'ne'):
        x = flag(f, d.ops[0], env)
        return None if x is None else (x == (d.d['p'] == 'ne'))
    if d.op == 'xor' and f.const(d.ops[1]) is not None:
        x = flag(f, d.ops[0], env)
        return None if x is None else not x
    return None


def exponent(f, i):
    """is i reached only through a test for e or E?"""
    preds = f.preds
    b = next(k for k, blk in enumerate(f.blocks) if i in blk)
    seen, work = {b}, [b]
    hit = False
    while work:
        x = work.pop()
        if not preds[x]:
            return False
        for p in preds[x]:
            t = f.blocks[p][-1]
            if t.op == 'br' and t.ops and len(t.d['succ']) == 2:
                d = f.defs.get(t.ops[0])
                if d is not None and d.op == 'icmp' and d.d['p'] == 'eq' and f.const(d.ops[1]) in (101, 69) and t.d['succ'][0] == x and t.d['succ'][1] != x:
                    hit = True
                    continue
                if d is not None and d.op == 'icmp' and d.d['p'] == 'ne' and f.const(d.ops[1]) in (101, 69) and t.d['succ'][1] == x and t.d['succ'][0] != x:
                    hit = True
                    continue
                if d is not None and d.op == 'or':
                    cs = [f.defs.get(o) for o in d.ops]
                    if all(c is not None and c.op == 'icmp' and c.d['p'] == 'eq' and f.const(c.ops[1]) in (101, 69) for c in cs) and t.d['succ'][0] == x:
                        hit = True
                        continue
            if p not in seen:
                seen.add(p)
                work.append(p)
    return hit


def errno(f, v):
    d = f.defs.get(v)
    return d is not None and d.iscall and d.callee == '__errno_location'


def covered(f, c, resets):
    """every path from the entry to c passes a reset"""
    seen, work = set(), [0]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        stop = False
        for i in f.blocks[b]:
            if i in resets:
                stop = True
                break
            if i is c:
                return False
        if not stop:
            work += f.succs(b)
    return True


def buffer(ctx, prog, f):
    """string buffer: positions are moved along when the buffer moves, the size noted is the size allocated, the length is that of the characters written"""
    grow = [i for i in f.insts() if i.iscall and i.callee in ('realloc', 'malloc')]
    for r in grow:
        blk = next(k for k, b in enumerate(f.blocks) if r in b)
        starts = [(blk, f.blocks[blk].index(r) + 1)]
        # slots that hold a position in the buffer: loaded, stored and passed by address
        slots = set(i.id for i in f.insts() if i.op == 'alloca' and i.d.get('aty') == 'ptr')
        slots = set(s for s in slots if any(u.op == 'store' and u.ops[1] == s and based(f, u.ops[0]) for u in f.insts()))
        for s in slots:
            ctx.ob('the position is moved along with the buffer', f.short)
            seen, work = set(), list(starts)
            while work:
                b, k = work.pop()
                stop = False
                for i in f.blocks[b][k:]:
                    if i.op == 'store' and i.ops[1] == s:
                        stop = True
                        break
                    if i.iscall and i.d.get('noret'):
                        stop = True
                        break
                    if i.op == 'load' and i.ops[0] == s:
                        us = [u for u in f.insts() if i.id in u.ops]
                        if any(u.op in ('load', 'store', 'getelementptr') or u.iscall for u in us) and not all(u.op in ('ptrtoint', 'icmp') for u in us):
                            ctx.bad('moved', f, i.where(), 'after the string buffer has grown the old position is used')
                            return
                    if i.iscall and s in i.ops and 'lifetime' not in (i.callee or ''):
                        ctx.bad('moved', f, i.where(), 'after the string buffer has grown the old position is used')
                        return
                if stop:
                    continue
                for x in f.succs(b, exceptional=False):
                    t = f.blocks[b][-1]
                    if t.op == 'br' and t.ops and len(t.d['succ']) == 2:
                        d = f.defs.get(t.ops[0])
                        if d is not None and d.op == 'icmp' and d.ops[0] == r.id and 'null' in d.ops:
                            ok = t.d['succ'][0 if d.d['p'] == 'ne' else 1]
                            if x != ok:
                                continue
                    if x not in seen:
                        seen.add(x)
                        work.append((x, 0))
        # size noted against size allocated
        if r.callee == 'realloc':
            a = scaled(f, r.ops[1])
            for i in f.insts():
                if i.op == 'store' and i.d.get('vt') in ('i32', 'i64') and f.dominates(r, i):
                    n = scaled(f, i.ops[0])
                    if a and n and a[0] == n[0] == i.ops[1]:
                        ctx.ob('the size noted is the size allocated', f.short)
                        if n[1] > a[1] or n[1] == a[1] and n[2] > a[2]:
                            ctx.bad('size', f, i.where(), 'the buffer is taken to be larger than what was allocated')
                            return
    for i in f.insts():
        if i.op == 'store' and i.ops[1] == 'a3':
            for v, d, h in through(f, i.ops[0], ('trunc', 'sext', 'zext')):
                if d is None:
                    continue
                ctx.ob('length of the string', f.short)
                if d.iscall and 'strlen' in (d.callee or ''):
                    ctx.bad('length', f, i.where(), 'the length of a string is taken by strlen: it ends at the first NUL')
                    return
                if d.op == 'sub':
                    a, b = [f.defs.get(o) for o in d.ops]
                    if a is None or b is None or a.op != 'ptrtoint' or b.op != 'ptrtoint':
                        ctx.bad('length', f, i.where(), 'the length of a string is not the distance written') if f.const(d.ops[1]) else None


def based(f, v):
    for x, d, h in through(f, v, ('getelementptr', 'bitcast')):
        if d is not None and d.op == 'load' or x.startswith('a'):
            return True
    return False


def scaled(f, v):
    """k * load(slot) + c"""
    d = f.defs.get(v)
    if d is None:
        return None
    if d.op in ('sext', 'zext', 'trunc'):
        return scaled(f, d.ops[0])
    if d.op == 'load':
        return (d.ops[0], 1, 0)
    if d.op in ('mul', 'shl', 'add'):
        for a, b in (d.ops, d.ops[::-1]):
            c = f.const(b)
            s = scaled(f, a) if c is not None else None
            if s:
                if d.op == 'mul':
                    return (s[0], s[1] * c, s[2] * c)
                if d.op == 'shl':
                    return (s[0], s[1] << c, s[2] << c) if b == d.ops[1] else None
                return (s[0], s[1], s[2] + c)
        if d.op == 'add':
            x, y = scaled(f, d.ops[0]), scaled(f, d.ops[1])
            if x and y and x[0] == y[0]:
                return (x[0], x[1] + y[1], x[2] + y[2])
    return None


# ---- the tree built from the events: positions in the two vectors as linear forms
def lin(*ts):
    out = {}
    for t, k in ts:
        for s, c in t.items():
            out[s] = out.get(s, 0) + k * c
    return {s: c for s, c in out.items() if c}


class Builder:
    def __init__(self, ctx, prog, f):
        self.ctx, self.prog, self.f = ctx, prog, f
        t = prog.types['pfi::text::json::json_builder']['m']
        self.off = {}
        for m in t:
            if 'vector<pfi::text::json::json' in m['t']:
                self.off[m['off']] = 'stk'
            elif 'vector<' in m['t']:
                self.off[m['off']] = 'key'
            elif 'stack<' in m['t']:
                self.off[m['off']] = 'ixs'
        if sorted(self.off.values()) != ['ixs', 'key', 'stk']:
            raise Undecided('members of the builder')
        self.vec = {'stk': [('old', {}, {'S': 1})], 'key': [('old', {}, {'K': 1})]}
        self.val, self.slot = {}, {}
        self.pops = 0

    def size(self, v):
        return lin(*[(lin((s[2], 1), (s[1], -1)) if s[0] == 'old' else {'': 1}, 1) for s in self.vec[v]])

    def which(self, v):
        d = self.f.defs.get(v)
        if d is not None and d.op == 'getelementptr' and d.ops[0] == 'a0' and not d.d.get('var'):
            return self.off.get(d.d.get('off', 0))
        return None

    def aff(self, v):
        f = self.f
        c = f.const(v)
        if c is not None:
            return {'': c} if c else {}
        if v in self.val:
            return self.val[v]
        d = f.defs.get(v)
        if d is None:
            return None
        if d.op in ('trunc', 'sext', 'zext', 'freeze'):
            return self.aff(d.ops[0])
        if d.op in ('add', 'sub'):
            a, b = self.aff(d.ops[0]), self.aff(d.ops[1])
            return None if a is None or b is None else lin((a, 1), (b, 1 if d.op == 'add' else -1))
        if d.op == 'load':
            s = self.cell(d.ops[0])
            if s in self.slot:
                return self.slot[s]
        return None

    def cell(self, v):
        d = self.f.defs.get(v)
        while d is not None and d.op == 'getelementptr' and not d.d.get('var') and d.d.get('off', 0) == 0:
            v = d.ops[0]
            d = self.f.defs.get(v)
        return v

    def cut(self, v, a, b):
        """erase [a,b)"""
        out, pos, done = [], {}, False
        segs = self.vec[v]
        # split the segments at a and b where they are known to lie
        for s in segs:
            n = lin((s[2], 1), (s[1], -1)) if s[0] == 'old' else {'': 1}
            end = lin((pos, 1), (n, 1))
            out.append((s, pos, end))
            pos = end
        if a == b:
            return
        starts = [p for s, p, e in out] + [pos]
        res, i = [], 0
        # a: a boundary, or inside the first old segment (0 <= T <= S)
        keep = []
        k = next((j for j, p in enumerate(starts) if p == a), None)
        if k is None:
            if segs and segs[0][0] == 'old' and not segs[0][1]:
                keep = [('old', {}, a)]
                k = 1
                first = lin((segs[0][2], 1), (a, -1))
            else:
                raise Undecided('erased range')
        else:
            keep = list(segs[:k])
        e = next((j for j, p in enumerate(starts) if p == b), None)
        if e is None:
            raise Undecided('erased range')
        if e < k:
            raise Undecided('erased range')
        self.vec[v] = keep + list(segs[e:])

    def step(self, i):
        f = self.f
        if i.op == 'store':
            s = self.cell(i.ops[1])
            self.slot[s] = self.aff(i.ops[0])
            return
        if not i.iscall:
            return
        n = i.callee or ''
        k = n.split('::')[-1]
        if n == 'std::stack::top':
            self.slot[i.id] = {'T': 1} if not self.pops else None
            return
        if n == 'std::stack::pop':
            self.pops += 1
            return
        if n == 'std::stack::push' or n == 'std::stack::emplace':
            self.pushed = self.slot.get(self.cell(i.ops[1]), self.aff(i.ops[1]))
            return
        if n.startswith('std::vector::'):
            v = self.which(i.ops[0])
            if v is None:
                return
            if k == 'size':
                self.val[i.id] = self.size(v)
            elif k in ('begin', 'cbegin'):
                self.val[i.id] = {}
            elif k in ('end', 'cend'):
                self.val[i.id] = self.size(v)
            elif k in ('push_back', 'emplace_back'):
                self.vec[v].append(('new', i.ops[1]))
            elif k == 'pop_back':
                self.cut(v, lin((self.size(v), 1), ({'': 1}, -1)), self.size(v))
            elif k == 'erase':
                a = self.aff(i.ops[1])
                b = self.aff(i.ops[2]) if len(i.ops) > 2 else (None if a is None else lin((a, 1), ({'': 1}, 1)))
                if a is None or b is None:
                    raise Undecided('erased range')
                self.cut(v, a, b)
            elif k == 'resize':
                a = self.aff(i.ops[1])
                if a is None:
                    raise Undecided('resize')
                self.cut(v, a, self.size(v))
            elif k in ('operator[]', 'at', 'empty', 'reserve', 'capacity', 'back', 'front'):
                pass
            else:
                raise Undecided('vector::%s' % k)
            return
        if 'iterator' in n:
            if k in ('operator-', 'operator+') and len(i.ops) == 2:
                a, b = self.slot.get(self.cell(i.ops[0])), self.aff(i.ops[1])
                self.val[i.id] = None if a is None or b is None else lin((a, 1), (b, 1 if k == 'operator+' else -1))
            elif k == '__normal_iterator':
                self.slot[self.cell(i.ops[0])] = self.slot.get(self.cell(i.ops[1]))
            elif k in ('operator-=', 'operator+='):
                a, b = self.slot.get(self.cell(i.ops[0])), self.aff(i.ops[1])
                self.slot[self.cell(i.ops[0])] = None if a is None or b is None else lin((a, 1), (b, 1 if k == 'operator+=' else -1))

    def order(self):
        """blocks of the normal flow, loops contracted: (block list, loop or None)"""
        f = self.f
        ok = set()
        work = [0]
        # blocks that reach a return without an exception
        reach = set()
        while work:
            b = work.pop()
            if b in reach:
                continue
            reach.add(b)
            work += f.succs(b, exceptional=False)
        return [b for b in f.rpo() if b in reach]


def fmt(a):
    names = {'T': 'start', 'S': 'values', 'K': 'keys', 'I': 'i'}
    return ' '.join('%+d%s' % (c, names.get(s, s) and '*' + names.get(s, s) if s else '') for s, c in sorted(a.items())) or '0'


def tree(ctx, prog, f):
    kind = 'object' if 'end_object' in f.dem else 'array'
    m = Builder(ctx, prog, f)
    loops = f.loops()
    if len(loops) != 1:
        raise Undecided('not one loop')
    h, body = list(loops.items())[0]
    dead = set(b for b in range(len(f.blocks)) if any(i.iscall and i.callee == '__cxa_throw' for i in f.blocks[b]))
    done = False
    for b in m.order():
        if b == h:
            loop(ctx, m, f, h, body, kind)
            done = True
        for i in f.blocks[b]:
            if b in body and b != h and i.iscall and (i.callee or '').startswith('std::vector::') and m.which(i.ops[0]) and not (i.callee or '').split('::')[-1] in ('operator[]', 'size', 'at'):
                raise Undecided('the vectors change inside the loop')
            m.step(i)
    if not done:
        raise Undecided('loop not reached')
    ctx.ob('%s: the values used are replaced by the %s' % (f.short, kind), f.short)
    s = m.vec['stk']
    if not (len(s) == 2 and s[0][0] == 'old' and not s[0][1] and s[1][0] == 'new'):
        ctx.bad('tree', f, f.file, 'the values of the %s are not replaced by it on the stack' % kind)
        return
    if s[0][2] != {'T': 1}:
        ctx.bad('tree', f, f.file, 'after the %s the stack keeps %s values instead of those before its start' % (kind, fmt(s[0][2])))
        return
    k = m.vec['key']
    want = {'K': 1} if kind == 'array' else {'K': 1, 'S': -1, 'T': 1}
    if len(k) != 1 or k[0][0] != 'old' or k[0][1] or k[0][2] != want:
        ctx.bad('tree', f, f.file, 'after the %s %s keys are kept' % (kind, fmt(k[0][2]) if k else 'no'))
        return
    if m.pops != 1:
        ctx.bad('tree', f, f.file, 'the start of the %s is taken off its stack %d times' % (kind, m.pops))


def loop(ctx, m, f, h, body, kind):
    phis = [i for i in f.blocks[h] if i.op == 'phi']
    iv = None
    for p in phis:
        ent = [o for o, q in zip(p.ops, p.d['in']) if q not in body]
        back = [o for o, q in zip(p.ops, p.d['in']) if q in body]
        if len(back) != 1 or len(ent) != 1:
            continue
        d = f.defs.get(back[0])
        if d is not None and d.op == 'add' and p.id in d.ops and f.const([o for o in d.ops if o != p.id][0]) == 1:
            iv = (p, m.aff(ent[0]))
    if iv is None or iv[1] is None:
        raise Undecided('counting of the loop')
    p, init = iv
    m.val[p.id] = {'I': 1}
    # size() calls in the loop header and body give the sizes before the loop
    for b in [h] + sorted(body - {h}):
        for i in f.blocks[b]:
            if i.iscall and i.callee == 'std::vector::size' and m.which(i.ops[0]):
                m.step(i)
    t = f.blocks[h][-1]
    d = f.defs.get(t.ops[0]) if t.op == 'br' and t.ops else None
    if d is None or d.op != 'icmp' or d.d['p'] not in ('slt', 'ult', 'ne', 'sgt', 'ugt'):
        raise Undecided('end of the loop')
    a, b = m.aff(d.ops[0]), m.aff(d.ops[1])
    if a is None or b is None:
        raise Undecided('end of the loop')
    if d.d['p'] in ('sgt', 'ugt'):
        a, b = b, a
    if a.get('I') != 1 or b.get('I') or t.d['succ'][0] not in body:
        raise Undecided('end of the loop')
    bound = lin((b, 1), (a, -1), ({'I': 1}, 1))
    n = lin((bound, 1), (init, -1))
    ix = {'stk': [], 'key': []}
    for b in sorted(body):
        for i in f.blocks[b]:
            if i.iscall and i.callee in ('std::vector::operator[]', 'std::vector::at') and m.which(i.ops[0]) in ix:
                ix[m.which(i.ops[0])].append((m.aff(i.ops[1]), i))
    if len(ix['stk']) != 1 or len(ix['key']) != (kind == 'object') or any(a is None for l in ix.values() for a, i in l):
        raise Undecided('elements used in the loop')
    ctx.ob('%s: every value of it, once and in order' % f.short, f.short)
    a, i = ix['stk'][0]
    sub = lambda a, v: lin((a, 1), ({'I': a.get('I', 0)}, -1), (v, a.get('I', 0)))
    if n != {'S': 1, 'T': -1}:
        ctx.bad('tree', f, i.where(), 'the %s is given %s values' % (kind, fmt(n)))
        return
    if a.get('I') == 1:
        if sub(a, init) != {'T': 1}:
            ctx.bad('tree', f, i.where(), 'the first value of the %s is taken from position %s' % (kind, fmt(sub(a, init))))
            return
    elif a.get('I') == -1 and sub(a, init) == {'S': 1, '': -1}:
        if kind == 'array':
            ctx.bad('tree', f, i.where(), 'the values of an array are added in reverse order')
            return
    else:
        ctx.bad('tree', f, i.where(), 'the values of the %s are taken from positions %s' % (kind, fmt(a)))
        return
    if kind == 'object':
        k, j = ix['key'][0]
        if lin((k, 1), (a, -1)) != {'K': 1, 'S': -1}:
            ctx.bad('tree', f, j.where(), 'value number %s is given the key number %s' % (fmt(lin((a, 1), ({'T': 1}, -1))), fmt(k)))


VT = {'null': 'json_null', 'boolean': 'json_bool', 'integer': 'json_integer', 'number': 'json_float', 'string': 'json_string'}


def event(ctx, prog, f, name):
    m = Builder(ctx, prog, f)
    m.pushed = None
    if f.loops():
        raise Undecided('loop in an event')
    for b in m.order():
        for i in f.blocks[b]:
            m.step(i)
    if name.startswith('start_'):
        ctx.ob('the start of it is noted', f.short)
        if m.vec['stk'] != [('old', {}, {'S': 1})] or m.pops:
            raise Undecided('start event')
        if m.pushed is not None and m.pushed != {'S': 1}:
            ctx.bad('tree', f, f.file, 'the position noted at the start is %s' % fmt(m.pushed))
        return
    v = 'key' if name == 'object_key' else 'stk'
    new = [s for s in m.vec[v] if s[0] == 'new']
    ctx.ob('one value is added', f.short)
    if len(new) != 1 or len(m.vec[v]) != 2:
        ctx.bad('tree', f, f.file, 'the event adds %d values' % len(new))
        return
    vts = [re.search(r'json10?\d*(json_\w+?)E$', i.ops[0]) for i in f.insts() if i.op == 'store' and '_ZTVN3pfi4text4json' in i.ops[0]]
    last = [x for x in (re.search(r'\d(json_[a-z]+)E$', i.ops[0]) for i in f.insts() if i.op == 'store' and '_ZTVN3pfi4text4json' in i.ops[0]) if x]
    if name in VT and last and last[-1].group(1) != VT[name]:
        kindsx = set(x.group(1) for x in last)
        if VT[name] not in kindsx:
            ctx.bad('tree', f, f.file, 'a %s event makes a %s' % (name, last[-1].group(1)))
            return
    if name in ('integer', 'number', 'boolean'):
        for i in f.insts():
            if i.op in ('fptrunc', 'trunc', 'fptosi', 'sitofp') and i.ops[0] == 'a1':
                ctx.bad('tree', f, i.where(), 'the value of a %s event is cut' % name)
                return
    if name in ('string', 'object_key'):
        for i in f.insts():
            if i.iscall and re.search(r'basic_string.*::(basic_string|operator=|assign|operator\+=|append)\(char const\*(, std::allocator<char> const&)?\)', i.dem or '') and i.ops[1] == 'a1':
                ctx.bad('tree', f, i.where(), 'the text of a string is taken up to its first NUL only')
                return

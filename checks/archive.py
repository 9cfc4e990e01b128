"""Recognising tests of a stream's or archive's state, and the escape transducer of serialised streams."""
import re
from codec import *

GOOD = {'good': 1, 'fail': 0, 'operator!': 0, 'operator bool': 1, 'bad': 0, 'eof': 0}


def goodness(f, v, dep=0, tab=GOOD):
    """1: v is true exactly when the stream is usable, 0: when it is not, None: unrelated"""
    if dep > 14:
        return None
    d = f.defs.get(str(v))
    if d is None:
        return None
    if d.iscall:
        n = d.dem or ''
        if 'std::basic_ios' in n or 'std::ios' in n:
            for k, g in tab.items():
                if re.search(r'::%s(\(| const)' % re.escape(k), n):
                    return g
        if re.search(r'::bool_test\(\) const', n) or re.search(r'safe_bool<.*::operator ', n):
            return 1
        return None
    if d.op in ('zext', 'sext', 'trunc', 'freeze', 'extractvalue', 'ptrtoint', 'bitcast'):
        return goodness(f, d.ops[0], dep + 1, tab)
    if d.op == 'icmp':
        z = [o for o in d.ops if f.const(o) == 0 or str(o) in ('zero', 'null')]
        o = [o for o in d.ops if o not in z]
        if len(z) == 1 and len(o) == 1 and d.d['p'] in ('ne', 'eq'):
            g = goodness(f, o[0], dep + 1, tab)
            return g if g is None or d.d['p'] == 'ne' else 1 - g
        return None
    if d.op == 'xor' and f.const(d.ops[1]) in (1, -1):
        g = goodness(f, d.ops[0], dep + 1, tab)
        return None if g is None else 1 - g
    if d.op == 'select':
        g = goodness(f, d.ops[0], dep + 1, tab)
        if g is not None:
            if str(d.ops[2]) in ('zero', 'null', 'c:0'):
                return g
            if str(d.ops[1]) in ('zero', 'null', 'c:0'):
                return 1 - g
    return None


class StreamFlow(StrFlow):
    """a stream's bytes moving through an archive; the archive is assumed usable"""
    def split(self, st, c, i):
        if c is None and i.op == 'br':
            g = goodness(self.f, i.ops[0])
            if g is not None:
                return [(st, bool(g))]
        return StrFlow.split(self, st, c, i)

    def step(self, st, i):
        if i.id and (i.op in ('select', 'extractvalue', 'icmp', 'xor', 'zext', 'trunc') or i.iscall):
            g = goodness(self.f, i.id)
            if g is not None:
                st.env[i.id] = g
                return
        return StrFlow.step(self, st, i)

    def onloop(self, rec):
        if not hasattr(self, 'recs'):
            self.recs = {}
        self.recs[rec['head']] = rec

    def count(self, st, what):
        return len([e for e in st.ev if e[0] == what])

    def hook(self, st, i, name, args):
        n = i.dem or ''
        m = re.search(r'serialization::serialize\(pfi::data::serialization::binary_([io])archive&, (signed char|unsigned char|char)(&?)\)', n)
        if m and m.group(1) == 'o':
            st.ev.append(('out', 'archive', args[1], i.where()))
            return True
        if m:
            k = self.count(st, 'in')
            st.ev.append(('in', k))
            p = args[1]
            if p is None or p[0] != 'L':
                raise Undecided('a byte is read elsewhere')
            self.put(st, p[1], p[2], fresh(('ar', k)), 8)
            return True
        if 'serialization::serialize' in n:
            raise Undecided('other transfers')
        if 'istreambuf_iterator' in n and 'ostreambuf' not in n:
            if '::operator*' in n:
                # the proxy returned by p++ denotes the byte before the step
                pr = st.env.get(('proxy',))
                k = self.count(st, 'adv')
                if isinstance(args[0], tuple) and args[0][0] == 'L' and pr and args[0][1] not in pr[1]:
                    k = pr[0]
                st.env[i.id] = fresh(('io', k))
                return True
            if '::operator++' in n:
                k = self.count(st, 'adv')
                roots = set()
                its = [a for a in args if isinstance(a, tuple) and a[0] == 'L']
                if its:
                    roots.add(its[-1][1])
                st.env[('proxy',)] = (k, roots)
                st.ev.append(('adv',))
                st.env[i.id] = None
                return True
            st.env[i.id] = None
            return True
        if 'ostreambuf_iterator' in n:
            if '::operator=' in n and len(args) == 2 and not isinstance(args[1], tuple) or '::operator=(char' in n:
                st.ev.append(('out', 'stream', args[1], i.where()))
            elif '::operator*' in n or '::operator++' in n:
                st.env[i.id] = args[0]
                return True
            st.env[i.id] = args[0]
            return True
        if re.search(r'ostream::put\(', n):
            st.ev.append(('out', 'stream', args[1], i.where()))
            return True
        if re.search(r'istream::(get|read|getline|peek)|streambuf::s|ostream::write|operator(<<|>>)', n):
            raise Undecided('streams are used another way')
        return StrFlow.hook(self, st, i, name, args)


def one_loop(fl):
    recs = getattr(fl, 'recs', {})
    if len(recs) != 1:
        raise Undecided('not one loop')
    return list(recs.values())[0]


def check_stream(ctx, prog, w, r):
    """each byte is escaped on writing so that reading gives it back, and the end mark is no byte's code"""
    FF = 1 << 255
    fl = StreamFlow(prog, w)
    res = fl.run()
    rec = one_loop(fl)
    ctx.ob('every byte of a stream is written as itself, 0xff as two bytes, and the end as ff 00', w.short)
    seen = 0
    codes = {}
    for a in rec['agains']:
        if len([e for e in a.ev if e[0] == 'adv']) != 1:
            raise Undecided('an iteration does not take exactly one byte')
        d = a.dom.get(('io', 0), FULL)
        if d & seen:
            raise Undecided('paths overlap')
        seen |= d
        os_ = outs(a)
        if any(not known(e[2]) for e in os_):
            raise Undecided('byte not understood')
        for b in members(d):
            codes[b] = [val_at(a, e[2], ('io', 0), b) for e in os_]
    if seen != FULL:
        raise Undecided('not every byte continues the loop')
    ends = set()
    for st, kind, v in res:
        if kind != 'ret':
            continue
        k = max(n for n, e in enumerate(st.ev) if e[0] == 'loop')
        tail = [e for e in st.ev[k + 1:] if e[0] == 'out']
        if any(not isinstance(e[2], int) for e in tail):
            raise Undecided('end mark not understood')
        ends.add(tuple(e[2] & 255 for e in tail))
    if len(ends) != 1:
        raise Undecided('several end marks')
    end = list(ends.pop())
    # the reader, as a function of the bytes it takes
    fr = StreamFlow(prog, r)
    rres = fr.run()
    rrec = one_loop(fr)
    conts = [(a, a.dom, outs(a), len([e for e in a.ev if e[0] == 'in'])) for a in rrec['agains']]
    stops = []
    for st, kind, v in rres:
        if kind == 'ret':
            k = max(n for n, e in enumerate(st.ev) if e[0] == 'loop')
            tail = st.ev[k + 1:]
            stops.append((st, st.dom, [e for e in tail if e[0] == 'out'], len([e for e in tail if e[0] == 'in'])))

    def feed(seq):
        """what the reader does with these bytes: [(continues, consumed, outputs)]"""
        got = []
        for cont, group in ((True, conts), (False, stops)):
            for st, dom, o, n in group:
                if n > len(seq):
                    ok = all(dom.get(('ar', k), FULL) >> seq[k] & 1 for k in range(len(seq)))
                    if ok:
                        got.append((cont, n, None, o))
                    continue
                if all(dom.get(('ar', k), FULL) >> seq[k] & 1 for k in range(n)):
                    if any(not known(e[2]) for e in o):
                        raise Undecided('byte not understood')
                    got.append((cont, n, [val_multi(st, e[2], seq) for e in o], o))
        return got
    for b in range(256):
        c = codes[b]
        g = feed(c)
        if len(g) != 1:
            raise Undecided('reader paths overlap or are missing')
        cont, n, o, ev = g[0]
        wh = ev[0][3] if ev else r.file
        if not cont or n != len(c) or o != [b]:
            how = 'stops' if not cont else ('expects more bytes' if o is None else 'gives %s' % ' '.join('%02x' % x for x in o))
            ctx.bad('stream-escape', r, wh, 'byte %02x is written as %s, for which the reader %s' % (b, ' '.join('%02x' % x for x in c), how))
            return
    g = feed(end)
    ctx.ob('reading undoes the escaping of each of the 256 bytes and stops at the end mark', r.short, n=257)
    if len(g) != 1:
        raise Undecided('reader paths overlap or are missing')
    cont, n, o, ev = g[0]
    if cont or n != len(end) or o:
        ctx.bad('stream-end', r, r.file, 'the end mark %s does not end reading' % ' '.join('%02x' % x for x in end))


def val_at(st, v, sym, b):
    if isinstance(v, int):
        return v & 255
    out = 0
    for k, x in enumerate(v[1][:8]):
        x = sbit(st, x)
        if x == 1 or isinstance(x, tuple) and x[0] == 'f' and x[1] == sym and x[2] >> b & 1:
            out |= 1 << k
        elif isinstance(x, tuple) and (x[0] != 'f' or x[1] != sym):
            raise Undecided('byte depends on others')
    return out


def val_multi(st, v, seq):
    if isinstance(v, int):
        return v & 255
    if v[0] != 'B':
        raise Undecided('table byte')
    out = 0
    for k, x in enumerate(v[1][:8]):
        x = sbit(st, x)
        if x == 1:
            out |= 1 << k
        elif isinstance(x, tuple):
            if x[0] != 'f' or x[1][0] != 'ar':
                raise Undecided('byte depends on others')
            if x[2] >> seq[x[1][1]] & 1:
                out |= 1 << k
    return out

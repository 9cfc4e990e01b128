"""Language of the letters a function emits: the control-flow graph, with small constants followed through flags and counters, against a DFA."""
from pfa import *
from strflow import literal
from bytecodec import Undecided


class Words(Explorer):
    """state: (dfa state, soft). soft: an unresolved test other than a loop exit or a scalar argument lies on the path, so it may be infeasible"""
    MAXENV = 6
    MAXSTATES = 60000

    def __init__(self, prog, f, letters, dfa, start=0, free=None):
        Explorer.__init__(self, prog, f)
        self.letters, self.dfa, self.start, self.free = letters, dfa, start, free
        self.bad = []
        self.ends = set()
        self.softend = set()
        self.used = 0
        self.inloop = {}
        for h, body in sorted(f.loops().items(), key=lambda x: -len(x[1])):
            for b in body:
                self.inloop[b] = body

    def init(self):
        return (self.start, False)

    def inst(self, st, i, env):
        if i.op in ('ret',):
            return None
        ls = self.letters(i, self, env)
        if ls is None:
            return None
        q, soft = st
        for x in ls:
            if x == 'KILL':
                return []
            self.used += 1
            n = self.dfa.get(q, {}).get(x)
            if n is None:
                if not soft:
                    self.bad.append((q, x, i))
                return []
            q = n
        return [(q, soft)]

    def unwind(self, st, i, env):
        return None

    def exit(self, st, i, env):
        if i.op == 'ret':
            (self.softend if st[1] else self.ends).add((st[0], i))

    def _term(self, bi, t, s, env, rel, live, seen, work):
        if t.op == 'br' and t.ops and self.ev(t.ops[0], env) is None:
            body = self.inloop.get(bi)
            out = body is not None and any(x not in body for x in t.d['succ'])
            if not out and not self.isfree(t.ops[0]):
                s = (s[0], True)
        elif t.op == 'switch' and self.ev(t.ops[0], env) is None and not self.isfree(t.ops[0]):
            s = (s[0], True)
        Explorer._term(self, bi, t, s, env, rel, live, seen, work)

    def isfree(self, v):
        """does the test look at scalar arguments only?"""
        st, seen = [v], set()
        while st:
            x = str(st.pop())
            if x in seen:
                continue
            seen.add(x)
            if self.f.const(x) is not None or re.match(r'^a\d+$', x):
                continue
            if self.free and self.free(x):
                continue
            d = self.f.defs.get(x)
            if d is None or d.iscall or d.op in ('load', 'phi', 'alloca'):
                return False
            st.extend(d.ops)
        return True


class InputWords(Words):
    """Words of a reader: what is known of the next input character is part of the state: (dfa state, soft, next, id of the last look at it),
    next: None, ('=', c) or ('!', set of characters it is not). peek(i): is i a look at the next character? takes(letter): the character a letter needs."""
    def __init__(self, prog, f, letters, dfa, peek, skip, takes):
        Words.__init__(self, prog, f, letters, dfa)
        self.peek, self.skip, self.takes = peek, skip, takes

    def init(self):
        return (self.start, False, None, None)

    def inst(self, st, i, env):
        if i.op == 'ret':
            return None
        ls = self.letters(i, self, env)
        if i.iscall and self.skip(i):
            # white space may be skipped: what was known holds on only if it is not white space
            n = st[2]
            if n and (n[0] == '!' or n[1] in (9, 10, 13, 32)):
                st = (st[0], st[1], None, None)
        if i.iscall and self.peek(i):
            st = st[:3] + (i.id,)
        if ls is None:
            return [st]
        q, soft, nx, look = st
        for x in ls:
            if x == 'KILL':
                return []
            self.used += 1
            if x == 'ANY':
                if not nx or nx[0] != '=' or nx[1] > 127:
                    raise Undecided('an unknown character is consumed')
                x = chr(nx[1])
            if not self.takes(x, nx):
                return []
            n = self.dfa.get(q, {}).get(x)
            if n is None:
                if not soft:
                    self.bad.append((q, x, i))
                return []
            q = n
            if self.takes(x, 'consumes'):
                nx = look = None
        return [(q, soft, nx, look)]

    def looks(self, v):
        """(condition is: next character == c) -> (c, polarity)"""
        d = self.f.defs.get(v)
        if d is None or d.op != 'icmp' or d.d['p'] not in ('eq', 'ne'):
            return None
        for a, b in (d.ops, d.ops[::-1]):
            c = self.f.const(b)
            x = self.f.defs.get(a)
            while x is not None and x.op in ('sext', 'zext', 'trunc'):
                x = self.f.defs.get(x.ops[0])
            if c is not None and x is not None and x.iscall and self.peek(x):
                return c & 0xffffffff, d.d['p'] == 'eq', x.id
        return None

    def assume(self, st, cond, val, env):
        k = self.looks(cond) if isinstance(cond, str) else None
        if k is None:
            return Explorer.assume(self, st, cond, val, env)
        c, pol, look = k
        if look != st[3]:
            return (st[0], True, st[2], st[3])
        eq = bool(val) == pol
        n = st[2]
        if eq:
            if n and (n[0] == '=' and n[1] != c or n[0] == '!' and c in n[1]):
                return None
            return (st[0], st[1], ('=', c), st[3])
        if n and n[0] == '=':
            return None if n[1] == c else st
        return (st[0], st[1], ('!', (n[1] if n else frozenset()) | {c}), st[3])

    def _term(self, bi, t, s, env, rel, live, seen, work):
        if t.op == 'br' and t.ops and self.ev(t.ops[0], env) is None:
            cond = self.resolve_cond(t.ops[0], env)
            if not (isinstance(cond, str) and self.looks(cond)) and not self.isfree(t.ops[0]):
                s = (s[0], True, s[2], s[3])
        elif t.op == 'switch' and self.ev(t.ops[0], env) is None and not self.isfree(t.ops[0]):
            s = (s[0], True, s[2], s[3])
        Explorer._term(self, bi, t, s, env, rel, live, seen, work)

    def exit(self, st, i, env):
        if i.op == 'ret':
            (self.softend if st[1] else self.ends).add((st[0], i))


def text_out(prog, i):
    """the constant text an output call writes, '' for white space manipulators, None when it is not an output call, False when unknown"""
    d = i.dem or ''
    if not i.iscall:
        return None
    m = re.search(r'operator<<(?:<.*?>>)?\((.*)\)$', d)
    if 'ostream' in d and ('operator<<' in d or '::put(' in d):
        if 'ostream& (*)(std::' in d or '(*)(std::ios_base&)' in d or 'ios_base& (*)' in d or '(*)(std::basic_ostream' in d:
            return ''
        v = i.ops[1] if len(i.ops) > 1 else None
        k = int(v[2:]) if isinstance(v, str) and re.match(r'^c:-?\d+$', v) else None
        if k is not None and (', char)' in d or '::put(' in d or '(char)' in d):
            return chr(k & 255)
        if isinstance(v, str) and v.startswith('g:'):
            t = literal(prog, ('P', v, ()))
            if t is not None:
                return ''.join(chr(c) for c in t)
        return False
    if re.search(r'std::endl<|std::flush<', d):
        return ''
    return None


def star(a, sep, unit, z):
    """a (unit (sep unit)*)? z  as a DFA over letters; unit is a list of letters"""
    dfa = {0: {}}
    q = 0
    for x in a:
        dfa.setdefault(q, {})[x] = q + 1
        q += 1
    body = q
    n = q
    cur = body
    for x in unit:
        n += 1
        dfa.setdefault(cur, {})[x] = n
        cur = n
    done = cur
    n += 1
    again = n
    dfa.setdefault(done, {})[sep] = again
    cur = again
    for k, x in enumerate(unit):
        if k == len(unit) - 1:
            dfa.setdefault(cur, {})[x] = done
        else:
            n += 1
            dfa.setdefault(cur, {})[x] = n
            cur = n
    first = True
    e = n + 1
    for k, x in enumerate(z):
        if k == 0:
            dfa.setdefault(body, {})[x] = e
            dfa.setdefault(done, {})[x] = e
        else:
            dfa.setdefault(e, {})[x] = e + 1
            e += 1
    return dfa, e

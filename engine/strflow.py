"""Flow over code that reads std::string / char sequences and emits characters."""
import re
from flow import *


def const_strings(prog):
    """std::string constants: global -> bytes"""
    c = getattr(prog, '_const_strings', None)
    if c is not None:
        return c
    c = prog._const_strings = {}
    cand = dict((k, v) for k, v in prog.globals.items() if (v.get('dity') or '').startswith('const std::') and 'basic_string<char' in v['dity'])
    for f in prog.funcs:
        for i in f.calls():
            if i.ops and i.ops[0].startswith('g:') and i.ops[0][2:] in cand and len(i.ops) > 1 and 'basic_string' in plain(i.dem):
                t = literal(prog, i.ops[1])
                if t is not None:
                    c[i.ops[0][2:]] = t
    return c


def literal(prog, v):
    """bytes of a string literal operand"""
    if isinstance(v, tuple) and v[0] == 'P' and v[1].startswith('g:'):
        g, off = v[1], fconst(v[2])
        if off is None:
            return None
    elif isinstance(v, str):
        off = 0
        while v.startswith('ce:'):
            _, o, v = v.split(':', 2)
            off += int(o)
        if not v.startswith('g:'):
            return None
        g = v
    else:
        return None
    d = prog.globals.get(g[2:])
    if d and d.get('const') and d.get('esz') == 1 and isinstance(d.get('init'), list):
        b = bytes(x & 255 for x in d['init'])[off:]
        return b.split(b'\0')[0]
    return None


class StrFlow(Flow):
    def key(self, v):
        """identity of a string object"""
        if v is None or isinstance(v, int):
            return None
        if v[0] == 'O':
            return v[1]
        if v[0] == 'L':
            return v[1] if v[2] == 0 else (v[1], v[2])
        if v[0] == 'P' and v[1].startswith('g:') and v[2] == ():
            return v[1]
        return None

    def size(self, st, k):
        if k not in st.size:
            st.size[k] = fsym(('len', k))
        return st.size[k]

    def emit(self, st, k, v, i):
        st.ev.append(('out', k, v, i.where()))
        if k in st.size:
            st.size[k] = fadd(st.size[k], form(1))

    def emit_text(self, st, k, t, i):
        for c in t:
            self.emit(st, k, sgn(c, 8), i)

    def pure(self, i):
        n = plain(i.dem or '')
        return Flow.pure(self, i) or n.endswith(('basic_string::size', 'basic_string::length', '::operator!=', '::operator==', '::end', '::begin', 'basic_string::operator[]', '::operator*'))

    def hook(self, st, i, name, args):
        m = name.rsplit('::', 1)[-1]
        if '__normal_iterator' in (i.dem or '') and (name.startswith('__gnu_cxx') or name.startswith('bool __gnu_cxx') or '__normal_iterator::' in name):
            return self.iterator(st, i, m, args)
        if 'basic_string::' in name:
            return self.string(st, i, m, args)
        if re.match(r'^(std::)?(basic_)?ostream::(put|operator<<)$', name) or name in ('std::operator<<',):
            return self.ostream(st, i, m, args)
        if 'back_insert_iterator::' in name or 'ostreambuf_iterator::' in name or 'ostream_iterator::' in name:
            return self.inserter(st, i, m, args, name)
        return False

    def iterator(self, st, i, m, args):
        def it(a):
            if isinstance(a, tuple) and a[0] == 'L':
                v = self.get(st, a[1], a[2], 64)
                return v if isinstance(v, tuple) and v[0] == 'P' else None
            return None
        a = it(args[0]) if args else None
        if m in ('operator*', 'operator->', 'base'):
            st.env[i.id] = a
            return True
        if m in ('operator++', 'operator--') and a is not None:
            n = ('P', a[1], fadd(a[2], form(1), 1 if m == 'operator++' else -1))
            self.put(st, args[0][1], args[0][2], n, 64)
            st.env[i.id] = a if '(int)' in i.dem else args[0]
            return True
        if m in ('operator!=', 'operator==', 'operator<', 'operator>', 'operator<=', 'operator>=') and len(args) == 2:
            b = it(args[1])
            if a is not None and b is not None:
                p = {'operator!=': 'ne', 'operator==': 'eq', 'operator<': 'ult', 'operator>': 'ugt', 'operator<=': 'ule', 'operator>=': 'uge'}[m]
                st.env[i.id] = self.cmp(st, p, a, b, 64)
            else:
                st.env[i.id] = None
            return True
        if m in ('operator+', 'operator-', 'operator+=', 'operator-=') and len(args) == 2 and a is not None:
            b = it(args[1])
            sg = 1 if '+' in m else -1
            if b is not None:
                st.env[i.id] = self.wrapf(fadd(a[2], b[2], -1)) if a[1] == b[1] else None
                return True
            fb = self.toform(args[1])
            if fb is not None:
                n = ('P', a[1], fadd(a[2], fb, sg))
                if m.endswith('='):
                    self.put(st, args[0][1], args[0][2], n, 64)
                    st.env[i.id] = args[0]
                else:
                    st.env[i.id] = n
                return True
        return False

    def string(self, st, i, m, args):
        k = self.key(args[0]) if args else None
        if k is None:
            return False
        if m in ('size', 'length'):
            st.env[i.id] = self.wrapf(self.size(st, k))
            return True
        if m == 'empty':
            st.env[i.id] = ('R', 'eq', self.size(st, k))
            return True
        if m in ('operator[]', 'at') and len(args) > 1:
            if isinstance(k, str) and k.startswith('g:'):
                t = const_strings(self.prog).get(k[2:])
                if t is not None:
                    st.env[i.id] = ('Y', tuple(t) + (0,), args[1])
                    return True
            fx = self.toform(args[1])
            st.env[i.id] = ('P', k, fx) if fx is not None else None
            return True
        if m in ('c_str', 'data', 'begin', 'cbegin', '_M_data'):
            if isinstance(k, str) and k.startswith('g:'):
                return False
            st.env[i.id] = ('P', k, ())
            return True
        if m in ('end', 'cend'):
            st.env[i.id] = ('P', k, self.size(st, k))
            return True
        if m in ('reserve', 'capacity', 'get_allocator', '~basic_string', 'shrink_to_fit'):
            st.env[i.id] = None
            return True
        if m == 'basic_string' and (len(args) == 1 or (len(args) == 2 and 'allocator' in i.dem.split('(')[-1] and 'char const*' not in i.dem.split('(')[-1] and 'basic_string' not in i.dem.split('(')[-1])):
            st.size[k] = ()
            st.ev.append(('new', k))
            return True
        if m == 'basic_string' and len(args) >= 2:
            t = literal(self.prog, args[1])
            if t is not None:
                st.size[k] = ()
                st.ev.append(('new', k))
                self.emit_text(st, k, t, i)
                return True
        if m == 'clear':
            st.size[k] = ()
            st.ev.append(('new', k))
            return True
        if m in ('push_back',) or (m in ('operator+=',) and i.dem.rstrip().endswith('(char)')):
            self.emit(st, k, args[1], i)
            st.env[i.id] = args[0]
            return True
        if m in ('operator+=', 'append') and len(args) == 2:
            t = literal(self.prog, args[1])
            if t is not None:
                self.emit_text(st, k, t, i)
                st.env[i.id] = args[0]
                return True
        if m == 'append' and len(args) == 3 and isinstance(args[1], int) and i.dem.rstrip().endswith('char)') and 0 <= args[1] < 64:
            for _ in range(args[1]):
                self.emit(st, k, args[2], i)
            st.env[i.id] = args[0]
            return True
        return False

    def ostream(self, st, i, m, args):
        if not args:
            return False
        d = i.dem
        par = d[d.rfind('('):] if '(' in d else ''
        if m == 'put':
            self.emit(st, self.okey(st, args[0]), args[1], i)
        elif 'operator<<' in m:
            last = re.split(r',\s*', par.strip('()'))[-1]
            if last in ('char', 'unsigned char', 'signed char'):
                self.emit(st, self.okey(st, args[0]), args[1], i)
            elif last == 'char const*':
                t = literal(self.prog, args[1])
                if t is None:
                    st.ev.append(('out?', self.okey(st, args[0]), args[1], i.where()))
                else:
                    self.emit_text(st, self.okey(st, args[0]), t, i)
            else:
                st.ev.append(('out?', self.okey(st, args[0]), args[1] if len(args) > 1 else None, i.where()))
        else:
            return False
        st.env[i.id] = args[0]
        return True

    def okey(self, st, v):
        if isinstance(v, tuple) and v[0] == 'O':
            r = v[1]
            while isinstance(r, tuple):
                r = r[0]
            return r
        if isinstance(v, tuple) and v[0] == 'L':
            return v[1]
        return '?'

    def inserter(self, st, i, m, args, name):
        if m in ('operator*', 'operator++'):
            st.env[i.id] = args[0]
            return True
        if m == 'operator=' and len(args) == 2:
            v = args[1]
            if isinstance(v, tuple) and v[0] == 'L':
                v = self.get(st, v[1], v[2], 8)
            elif isinstance(v, tuple) and v[0] == 'P':
                v = self.element(st, v, 8, i)
            self.emit(st, self.okey(st, args[0]), v, i)
            st.env[i.id] = args[0]
            return True
        return False

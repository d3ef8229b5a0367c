"""Reader for textual LLVM IR (the subset rustc/opt print for this crate)."""
import re
import struct

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<local>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9\\]*))
 |(?P<attr>\#\d+)
 |(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?)
 |(?P<dots>\.\.\.)
 |(?P<id>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 |(?P<p><\{|\}>|[()\[\]{}<>,=*|:])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        x = m(s, pos)
        if x is None:
            if s[pos] == ';':
                break
            raise ValueError('token: ' + s[pos:pos + 60])
        k = x.lastgroup
        if k != 'ws':
            out.append((k, x.group()))
        pos = x.end()
    return out


def unq(s):
    """strip sigil and quotes"""
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s


FLOATS = {'float': 32, 'double': 64, 'half': 16, 'x86_fp80': 80, 'fp128': 128}


class Type:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        return '%s(%s,%s)' % (self.k, self.a, self.b)


PTR = Type('ptr', 64)
_ints = {}


def Int(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Type('int', n)
    return t


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        i = self.i + k
        return self.t[i][1] if i < len(self.t) else None

    def kind(self, k=0):
        i = self.i + k
        return self.t[i][0] if i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x != s:
            raise ValueError('expected %s got %s in %s' % (s, x, ' '.join(t[1] for t in self.t)[:400]))

    def type(self):
        k, x = self.t[self.i]
        self.i += 1
        if x == '<':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            return Type('vec', n, e)
        if x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            return Type('arr', n, e)
        if x in ('{', '<{'):
            end = '}' if x == '{' else '}>'
            fs = []
            if not self.accept(end):
                while True:
                    fs.append(self.type())
                    if self.accept(end):
                        break
                    self.expect(',')
            return Type('struct', fs, x == '<{')
        if k == 'local':
            return Type('named', unq(x))
        if x == 'ptr':
            if self.peek() == 'addrspace':
                self.i += 4
            return PTR
        if x[0] == 'i' and x[1:].isdigit():
            return Int(int(x[1:]))
        if x in FLOATS:
            return Type('float', FLOATS[x])
        if x in ('void', 'label', 'metadata', 'token', 'opaque'):
            return Type(x)
        raise ValueError('type ' + x)

    # value: ('l',name) ('g',name) ('int',v) ('f',bits) ('zero',) ('undef',) ('poison',)
    #        ('agg',[(ty,val)]) ('str',bytes) ('expr',op,...)
    def value(self, ty):
        k, x = self.t[self.i]
        self.i += 1
        if k == 'local':
            return ('l', unq(x))
        if k == 'glob':
            return ('g', unq(x))
        if k == 'num':
            if ty.k == 'float':
                return ('f', fbits(float(x), ty.a))
            return ('int', int(x))
        if k == 'hex':
            if ty.k == 'float':
                if x[2] in 'KLMHR':
                    return ('f', int(x[3:], 16))
                bits = int(x, 16)
                if ty.a == 32:
                    return ('f', d2f(bits))
                return ('f', bits)
            return ('int', int(x, 16))
        if k == 'str':
            return ('str', cstr(x))
        if x in ('true', 'false'):
            return ('int', int(x == 'true'))
        if x in ('zeroinitializer', 'null', 'none'):
            return ('zero',)
        if x in ('undef', 'poison'):
            return (x,)
        if x in ('<', '[', '{', '<{'):
            end = {'<': '>', '[': ']', '{': '}', '<{': '}>'}[x]
            vs = []
            if x == '<' and self.peek() == '{':
                # packed struct tokenised apart
                self.next()
                end = '}'
            if not self.accept(end):
                while True:
                    t = self.type()
                    vs.append((t, self.value(t)))
                    if self.accept(end):
                        break
                    self.expect(',')
            return ('agg', vs)
        if x == 'splat':
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect(')')
            return ('splat', v)
        if x == 'asm':
            return ('asm',)
        # constant expressions
        ops = []
        while self.kind() == 'id' and self.peek() in ('inbounds', 'nuw', 'nsw', 'exact', 'nusw', 'inrange'):
            self.next()
        if x == 'getelementptr':
            self.expect('(')
            bt = self.type()
            self.expect(',')
            while True:
                if self.peek() == 'inrange':
                    self.next()
                    if self.accept('('):
                        while self.next() != ')':
                            pass
                t = self.type()
                ops.append((t, self.value(t)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('gep', bt, ops)
        self.expect('(')
        if x == 'icmp' or x == 'fcmp':
            raise ValueError('const ' + x)
        while True:
            t = self.type()
            ops.append((t, self.value(t)))
            if self.peek() == 'to':
                self.next()
                tt = self.type()
                self.expect(')')
                return ('cast', x, ops[0], tt)
            if self.accept(')'):
                break
            self.expect(',')
        return ('cexpr', x, ops)

    def skip_to_comma(self):
        d = 0
        while self.i < len(self.t):
            x = self.t[self.i][1]
            if d == 0 and x == ',':
                return
            if x in '([{<' or x == '<{':
                d += 1
            elif x in ')]}>' or x == '}>':
                d -= 1
            self.i += 1


def fbits(x, w):
    if w == 32:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def d2f(bits):
    """double bit pattern that holds a float value -> float bit pattern"""
    e = bits >> 52 & 0x7ff
    if e == 0x7ff:
        s = bits >> 63
        return s << 31 | 0x7f800000 | (bits & ((1 << 52) - 1)) >> 29
    return fbits(struct.unpack('<d', struct.pack('<Q', bits))[0], 32)


def cstr(s):
    s = s[2:-1] if s.startswith('c"') else s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'ret', 'params', 'lines', 'decl', 'attrs', 'header', '_blocks', '_plan')

    def __init__(self):
        self._blocks = None
        self._plan = None
        self.attrs = None


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.gtext = {}
        self.funcs = {}
        self.attrs = {}
        self.meta = {}
        self._scan(text)
        self._sz = {}

    def _scan(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                body = []
                j = i + 1
                while lines[j] != '}':
                    body.append(lines[j])
                    j += 1
                self._func(l, body, False)
                i = j
            elif l.startswith('declare'):
                self._func(l, None, True)
            elif l.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = ', l)
                self.gtext[unq('@' + m.group(1))] = l[m.end():]
            elif l.startswith('%'):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = type ', l)
                self.types[unq('%' + m.group(1))] = l[m.end():]
            elif l.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attrs[m.group(1)] = m.group(2)
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', l)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            i += 1

    def _func(self, l, body, decl):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
        f = Func()
        f.name = unq('@' + m.group(1))
        f.header = l
        f.lines = body
        f.decl = decl
        self.funcs[f.name] = f

    def parse_header(self, f):
        """returns list of (type, name, attrs)"""
        l = f.header
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
        p = P(tokenize(l[m.end():]), self)
        ps = []
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    p.expect(')')
                    break
                ty = p.type()
                attrs = {}
                name = None
                while True:
                    k, x = p.t[p.i]
                    if k == 'local':
                        name = unq(x)
                        p.i += 1
                        break
                    if x in (',', ')'):
                        break
                    p.i += 1
                    if p.peek() == '(':
                        p.i += 1
                        d = 1
                        arg = []
                        while d:
                            y = p.next()
                            d += {'(': 1, ')': -1}.get(y, 0)
                            arg.append(y)
                        attrs[x] = arg[:-1]
                    elif x == 'align':
                        attrs['align'] = int(p.next())
                    else:
                        attrs[x] = True
                ps.append((ty, name, attrs))
                if p.accept(')'):
                    break
                p.expect(',')
        rest = l[l.rfind(')'):]
        f.attrs = ' '.join(self.attrs.get(a, '') for a in re.findall(r'#\d+', rest)) + rest
        return ps

    def resolve(self, t):
        while t.k == 'named':
            x = self.types[t.a]
            if isinstance(x, str):
                x = P(tokenize(x), self).type()
                self.types[t.a] = x
            t = x
        return t

    def size(self, t):
        """alloc size in bytes"""
        t = self.resolve(t)
        s = self.store(t)
        a = self.align(t)
        return (s + a - 1) // a * a

    def store(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            return (t.a + 7) // 8
        if t.k == 'float':
            return {16: 2, 32: 4, 64: 8, 80: 10, 128: 16}[t.a]
        if t.k == 'ptr':
            return 8
        if t.k == 'vec':
            return (t.a * self.bits(t.b) + 7) // 8
        if t.k == 'arr':
            return t.a * self.size(t.b)
        if t.k == 'struct':
            return self.layout(t)[1]
        raise ValueError(t)

    def bits(self, t):
        t = self.resolve(t)
        return {'int': t.a, 'float': t.a, 'ptr': 64}[t.k]

    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            s = (t.a + 7) // 8
            p = 1
            while p < s:
                p *= 2
            return min(p, 16) if t.a != 128 else 16
        if t.k in ('float', 'ptr'):
            return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t.a]
        if t.k == 'vec':
            s = self.store(t)
            p = 1
            while p < s:
                p *= 2
            return p
        if t.k == 'arr':
            return self.align(t.b)
        if t.k == 'struct':
            if t.b or not t.a:
                return 1
            return max(self.align(x) for x in t.a)
        raise ValueError(t)

    def layout(self, t):
        offs = []
        pos = 0
        for x in t.a:
            a = 1 if t.b else self.align(x)
            pos = (pos + a - 1) // a * a
            offs.append(pos)
            pos += self.size(x)
        return offs, pos

    def gconst(self, name):
        """bytes-with-relocations of a constant global: list of byte ints or ('p',sym,off,k)"""
        g = self.globals.get(name)
        if g is None:
            l = self.gtext.get(name)
            if l is None:
                return None
            # drop linkage words up to 'constant' / 'global'
            m = re.search(r'(?:^|\s)(constant|global)\s', l)
            if m is None or ' external ' in ' ' + l[:m.start() + 1] + ' ':
                self.globals[name] = g = (None, None, False)
            else:
                p = P(tokenize(l[m.end():]), self)
                ty = p.type()
                try:
                    v = p.value(ty)
                except (ValueError, IndexError):
                    v = None
                g = self.globals[name] = (ty, v, m.group(1) == 'constant')
        return g

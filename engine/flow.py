"""Forward dataflow over one LLVM function (loops unrolled along constant trip counts).

Abstract state per block: reachability condition (decision diagram), SSA
environment (terms), memory (object -> segments of terms).  Joins are gated
(phi -> ite on edge conditions), i.e. gated-SSA value numbering.
"""
import re
from term import Ctx, TRUE, FALSE
from llir import P, tokenize, unq, Type, Int, PTR


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off   # off: term id (64-bit)

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class Obj:
    """memory object description"""

    def __init__(self, name, size, init=None, align=1, kind='in'):
        self.name = name
        self.size = size          # bytes or None (unbounded)
        self.init = init          # fn(byte offset) -> (segment offset, width bits, term) or None
        self.align = align
        self.kind = kind
        self.dyn = None           # (length term, element bytes) of a slice


class Result:
    pass


CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
         'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
         'reassoc', 'inbounds', 'tail', 'musttail', 'notail', 'nneg', 'volatile', 'samesign', 'nusw', 'inrange'}

_parsecache = {}


def parse_blocks(mod, f):
    if f._blocks is not None:
        return f._blocks
    blocks = []
    cur = None
    for l in f.lines:
        if not l or l.startswith(';'):
            continue
        if not l.startswith(' '):
            m = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
            name = m.group(1)
            if name.startswith('"'):
                name = name[1:-1]
            cur = (name, [])
            blocks.append(cur)
            continue
        if cur is None:
            cur = ('0entry', [])
            blocks.append(cur)
        cur[1].append(l.strip())
    # join switch bodies
    out = []
    for name, ls in blocks:
        res = []
        i = 0
        while i < len(ls):
            l = ls[i]
            if l.startswith('switch') and l.endswith('['):
                while not ls[i].startswith(']'):
                    i += 1
                    l += ' ' + ls[i]
            res.append(l)
            i += 1
        out.append((name, res))
    f._blocks = out
    return out


class Flow:
    def __init__(self, mod, ctx=None, assume=TRUE):
        self.mod = mod
        self.c = ctx or Ctx()
        self.objs = {}
        self.t2p = {}
        self.t2i = {}             # terms that choose between addresses (or null)
        self.assume = assume
        self.panic = FALSE
        self.panics = []          # (condition, memory) at each panic site
        self.ub = []            # (cond, what)
        self.events = []        # (cond, name, args...)
        self.reads = []         # (cond, base address, byte offset) of loads through data pointers
        self.nalloca = 0
        self.depth = 0
        self.addrmemo = {}
        self.opaque_calls = {}
        self.steps = 0
        self.raw = False
        self.pmemo = {}
        self.on_call = None
        self.ninsts = 0

    # ---------------------------------------------------------- pointers
    def addr(self, obj):
        t = self.addrmemo.get(obj)
        if t is None:
            a = self.objs[obj].align if obj in self.objs else 1
            k = a.bit_length() - 1
            v = self.c.v(64 - k, '&' + obj)
            t = self.c.cat([self.c.const(k, 0), v]) if k else v
            self.addrmemo[obj] = t
        return t

    def p2t(self, p):
        if isinstance(p, int):
            return p
        if isinstance(p, PtrIte):
            t = self.c.ite(p.g, self.p2t(p.a), self.p2t(p.b))
            if t not in self.t2p:
                self.t2i[t] = p
            return t
        t = self.c.add(self.addr(p.obj), p.off)
        self.t2p[t] = p
        return t

    def t2ptr(self, t):
        if isinstance(t, Ptr):
            return t
        if isinstance(t, PtrIte):
            raise Unsupported('access through one of several pointers')
        p = self.t2p.get(t)
        if p is not None:
            return p
        return Ptr(('deref', t), self.c.const(64, 0))

    def tite(self, g, a, b):
        """ite over terms that keeps track of the addresses among them"""
        t = self.c.ite(g, a, b)
        if t != a and t != b and t not in self.t2p and t not in self.t2i:
            p, q = self.t2p.get(a, self.t2i.get(a)), self.t2p.get(b, self.t2i.get(b))
            if p is not None or q is not None:
                r = self.merge(g, a if p is None else p, b if q is None else q)
                if isinstance(r, Ptr):
                    self.t2p[t] = r
                elif isinstance(r, PtrIte):
                    self.t2i[t] = r
        return t

    def choose(self, p, cond):
        """what a pointer can be where it is dereferenced under cond"""
        if isinstance(p, int):
            p = self.t2i.get(p, p)
        while isinstance(p, PtrIte):
            c = self.c
            x, y = c.AND(cond, p.g), c.AND(cond, c.NOT(p.g))
            if cond != FALSE and (x == FALSE or y == FALSE):
                p = p.b if x == FALSE else p.a
                continue
            null = [isinstance(q, int) and c.isc(q) == 0 for q in (p.a, p.b)]
            if any(null) and not all(null):
                self.ub.append((x if null[0] else y, 'access through a null pointer'))
                p = p.b if null[0] else p.a
                continue
            break
        return p

    def padd(self, p, off):
        if isinstance(p, Ptr):
            return Ptr(p.obj, self.c.add(p.off, off))
        q = self.t2p.get(p)
        if q is not None:
            return Ptr(q.obj, self.c.add(q.off, off))
        return self.c.add(p, off)

    # ------------------------------------------------------------ values
    def scalar_bits(self, ty):
        return self.mod.bits(ty)

    def poison(self, w):
        return self.c.op('poison', w) if w > 1 else self.c.fill(1, self.c.var(('in', 'poison')))

    def ispoison(self, t):
        if not isinstance(t, int):
            return False
        n = self.c.n[t]
        return n[0] == 'op' and n[2] == 'poison' or n[0] == 'fill' and n[2] > 1 and \
            self.c.vars[self.c.b[n[2]][0]] == ('in', 'poison')

    def const_value(self, ty, v):
        mod, c = self.mod, self.c
        ty = mod.resolve(ty)
        k = v[0]
        if ty.k == 'vec':
            if k == 'agg':
                return [self.const_value(t, x) for t, x in v[1]]
            if k == 'splat':
                return [self.const_value(ty.b, v[1])] * ty.a
            if k in ('zero', 'undef', 'poison'):
                return [self.const_value(ty.b, v)] * ty.a
            if k == 'str':
                return [c.const(8, b) for b in v[1]]
            if k == 'cast':
                return self.cast(v[1], v[2][0], self.const_value(*v[2]), v[3])
            raise Unsupported('vec const %s' % k)
        if ty.k == 'arr':
            if k == 'agg':
                return [self.const_value(t, x) for t, x in v[1]]
            if k == 'str':
                return [c.const(8, b) for b in v[1]]
            return [self.const_value(ty.b, v) for _ in range(ty.a)]
        if ty.k == 'struct':
            if k == 'agg':
                return [self.const_value(t, x) for t, x in v[1]]
            return [self.const_value(t, v) for t in ty.a]
        if k == 'int':
            return c.const(mod.bits(ty), v[1])
        if k == 'f':
            return c.const(ty.a, v[1])
        if k == 'zero':
            return c.const(mod.bits(ty), 0)
        if k in ('undef', 'poison'):
            return self.poison(mod.bits(ty))
        if k == 'g':
            return self.gptr(v[1])
        if k == 'gep':
            base = self.const_value(*v[2][0])
            return self.gep(v[1], base, [(t, self.const_value(t, x)) for t, x in v[2][1:]])
        if k == 'cast':
            return self.cast(v[1], v[2][0], self.const_value(*v[2]), v[3])
        if k == 'cexpr':
            a = [self.const_value(t, x) for t, x in v[2]]
            return self.binop(v[1], mod.bits(v[2][0][0]), a[0], a[1])
        raise Unsupported('const ' + str(v)[:80])

    def gptr(self, name):
        o = '@' + name
        if o not in self.objs:
            g = self.mod.gconst(name)
            init = None
            size = None
            al = 1
            if g is not None and g[0] is not None:
                size = self.mod.size(g[0])
                m = re.search(r', align (\d+)', self.mod.gtext[name])
                if m:
                    al = int(m.group(1))
                if g[2] and g[1] is not None:
                    segs = {}
                    try:
                        self.const_segs(g[0], g[1], 0, segs)
                        init = segs
                    except Unsupported:
                        init = None
                elif g[1] is not None and size is not None and size <= 4096:
                    # a mutable static: what earlier calls left there is one more input
                    init = {}
                    try:
                        self.state_segs(g[0], 0, init, self.short(name).split('$GT$')[-1][-40:])
                    except Unsupported:
                        init = None
            self.objs[o] = Obj(o, size, init, al, 'global')
        return Ptr(o, self.c.const(64, 0))

    def state_segs(self, ty, off, segs, name):
        mod = self.mod
        ty = mod.resolve(ty)
        if ty.k in ('arr', 'vec'):
            es = mod.size(ty.b) if ty.k == 'arr' else mod.store(ty.b)
            for i in range(ty.a):
                self.state_segs(ty.b, off + i * es, segs, name)
        elif ty.k == 'struct':
            for o, t in zip(mod.layout(ty)[0], ty.a):
                self.state_segs(t, off + o, segs, name)
        else:
            w = mod.store(ty) * 8
            segs[off] = (w, self.c.v(w, 'static %s+%d' % (name, off)))

    def const_segs(self, ty, v, off, segs):
        mod = self.mod
        ty = mod.resolve(ty)
        if ty.k in ('arr', 'vec'):
            es = mod.size(ty.b) if ty.k == 'arr' else mod.store(ty.b)
            if v[0] == 'str':
                for i, b in enumerate(v[1]):
                    segs[off + i] = (8, self.c.const(8, b))
                return
            for i in range(ty.a):
                x = v[1][i][1] if v[0] == 'agg' else v
                self.const_segs(ty.b, x, off + i * es, segs)
            return
        if ty.k == 'struct':
            offs, _ = mod.layout(ty)
            for i, t in enumerate(ty.a):
                x = v[1][i][1] if v[0] == 'agg' else v
                self.const_segs(t, x, off + offs[i], segs)
            return
        x = self.const_value(ty, v)
        if isinstance(x, Ptr):
            x = self.p2t(x)
        segs[off] = (mod.store(ty) * 8, self.c.zext(x, mod.store(ty) * 8))

    # ------------------------------------------------------------ memory
    # mem: dict obj -> dict off -> (wbits, term)   (segments never overlap)
    def objsegs(self, mem, obj):
        s = mem.get(obj)
        if s is None:
            o = self.objs.get(obj)
            if o is not None and isinstance(o.init, dict):
                s = o.init
            else:
                s = {}
            mem[obj] = s
        return s

    def byte_at(self, mem, obj, off):
        s = self.objsegs(mem, obj)
        for d in range(0, 65):
            e = s.get(off - d)
            if e is not None:
                if d * 8 < e[0]:
                    return self.c.slice(e[1], d * 8, 8)
                break
        o = self.objs.get(obj)
        if o is not None and callable(o.init):
            so, w, t = o.init(off)
            return self.c.slice(t, (off - so) * 8, 8)
        if o is not None and o.kind == 'alloca':
            return None
        if isinstance(obj, tuple):
            return self.c.op('mem', 8, obj[1], self.c.const(64, off))
        return self.c.op('mem8', 8, self.c.const(64, off), obj)

    def load_bits(self, mem, obj, off, w, cond):
        """load w bits at constant byte offset"""
        c = self.c
        s = self.objsegs(mem, obj)
        e = s.get(off)
        o = self.objs.get(obj)
        if e is not None and e[0] == w:
            if o is not None and o.dyn is not None:
                self.check_dyn(o, off, (w + 7) // 8, cond, 'load')
            return e[1]
        if o is not None and o.size is not None and (off < 0 or off + (w + 7) // 8 > o.size):
            self.ub.append((cond, 'load out of bounds of %s at %d' % (obj, off)))
            return self.poison(w)
        if o is not None and o.dyn is not None:
            self.check_dyn(o, off, (w + 7) // 8, cond, 'load')
        if e is None and o is not None and callable(o.init) and not s:
            x = o.init(off)
            if x[0] == off and x[1] == w:
                return x[2]
        if isinstance(obj, tuple):
            if cond != FALSE:
                self.reads.append((cond, obj[1], c.const(64, off)))
            if not s:
                return c.op('mem', w, obj[1], c.const(64, off))
        parts = []
        nb = (w + 7) // 8
        pois = 0
        for i in range(nb):
            b = self.byte_at(mem, obj, off + i)
            if b is None:
                pois += 1
                b = self.poison(8)
            parts.append(b)
        if pois == nb:
            return self.poison(w)
        t = c.cat(parts)
        return c.slice(t, 0, w)

    def store_bits(self, mem, obj, off, w, t, cond):
        s = self.objsegs(mem, obj)
        o = self.objs.get(obj)
        nb = (w + 7) // 8
        if o is not None and o.size is not None and (off < 0 or off + nb > o.size):
            self.ub.append((cond, 'store out of bounds of %s at %d' % (obj, off)))
            return
        if o is not None and o.dyn is not None:
            self.check_dyn(o, off, nb, cond, 'store')
        e = s.get(off)
        s = dict(s)
        mem[obj] = s
        if w % 8:
            t = self.c.zext(t, nb * 8)
            w = nb * 8
        if e is not None and e[0] == w:
            s[off] = (w, t)
            return
        # split overlapped segments
        for so in list(s):
            sw, st = s[so]
            if so < off + nb and so + sw // 8 > off:
                del s[so]
                for i in range(sw // 8):
                    p = so + i
                    if not off <= p < off + nb:
                        s[p] = (8, self.c.slice(st, i * 8, 8))
        s[off] = (w, t)

    def check_dyn(self, o, off, nb, cond, what):
        ln, es = o.dyn
        need = (off + nb + es - 1) // es
        bad = cond if off < 0 else self.c.AND(cond, self.c.ultc(ln, need))
        if bad != FALSE:
            self.ub.append((bad, '%s beyond the length of %s at byte %d' % (what, o.name, off)))

    def lanes_of(self, ty, v):
        """value -> list of (byte offset, bits, term)"""
        mod = self.mod
        ty = mod.resolve(ty)
        if ty.k == 'vec':
            bw = mod.bits(ty.b)
            ts = [self.p2t(x) for x in v]
            if bw % 8:
                t = self.c.cat(ts)
                w = self.c.w(t)
                r = (w + 7) // 8 * 8
                return [(0, r, self.c.zext(t, r))]
            return [(i * bw // 8, bw, t) for i, t in enumerate(ts)]
        if ty.k == 'arr':
            es = mod.size(ty.b)
            out = []
            for i in range(ty.a):
                out += [(o + i * es, b, t) for o, b, t in self.lanes_of(ty.b, v[i])]
            return out
        if ty.k == 'struct':
            offs, _ = mod.layout(ty)
            out = []
            for i, t in enumerate(ty.a):
                out += [(o + offs[i], b, x) for o, b, x in self.lanes_of(t, v[i])]
            return out
        w = mod.bits(ty)
        return [(0, w, self.p2t(v))]

    def load(self, mem, ty, p, cond, align=1):
        mod, c = self.mod, self.c
        ty = mod.resolve(ty)
        p = self.t2ptr(p)
        self.check_align(p, align, cond, 'load')
        k = c.isc(p.off)
        if k is None:
            return self.load_sym(mem, ty, p, cond)
        if k >> 63:
            k -= 1 << 64
        return self.load_at(mem, ty, p.obj, k, cond)

    def load_at(self, mem, ty, obj, off, cond):
        mod, c = self.mod, self.c
        ty = mod.resolve(ty)
        if ty.k == 'vec':
            bw = mod.bits(ty.b)
            if bw % 8:
                t = self.load_bits(mem, obj, off, (ty.a * bw + 7) // 8 * 8, cond)
                return [c.slice(t, i * bw, bw) for i in range(ty.a)]
            return [self.load_bits(mem, obj, off + i * bw // 8, bw, cond) for i in range(ty.a)]
        if ty.k == 'arr':
            es = mod.size(ty.b)
            return [self.load_at(mem, ty.b, obj, off + i * es, cond) for i in range(ty.a)]
        if ty.k == 'struct':
            offs, _ = mod.layout(ty)
            return [self.load_at(mem, t, obj, off + o, cond) for t, o in zip(ty.a, offs)]
        return self.load_bits(mem, obj, off, mod.bits(ty), cond)

    def sym_slots(self, ty, p, cond, what):
        """list of (cond, const offset) for a symbolic offset"""
        c = self.c
        o = self.objs.get(p.obj)
        if o is None or o.size is None:
            raise Unsupported('symbolic %s of unbounded object %s' % (what, p.obj))
        nb = self.mod.store(ty)
        # stride: number of constant low bits of offset
        tz = 0
        while tz < 12 and c.isc(c.slice(p.off, tz, 1)) is not None:
            tz += 1
        rem = c.isc(c.slice(p.off, 0, tz)) if tz else 0
        step = 1 << tz
        slots = [k for k in range(rem, o.size - nb + 1, step)]
        if not slots or len(slots) > 512:
            raise Unsupported('symbolic offset slots')
        inb = c.ultc(p.off, slots[-1] + 1)
        self.ub.append((c.AND(cond, c.NOT(inb)), '%s out of bounds of %s' % (what, p.obj)))
        n = len(slots)
        if n & (n - 1) == 0:
            hi = n.bit_length() - 1
            idx = c.slice(p.off, tz, hi) if hi else None
            return [((c.eq(idx, c.const(hi, i)) if hi else TRUE), s) for i, s in enumerate(slots)]
        return [(c.eq(p.off, c.const(64, s)), s) for s in slots]

    def load_sym(self, mem, ty, p, cond):
        slots = self.sym_slots(ty, p, cond, 'load')
        r = None
        for g, off in reversed(slots):
            v = self.load_at(mem, ty, p.obj, off, FALSE)
            r = v if r is None else self.merge(g, v, r)
        return r

    def store(self, mem, ty, v, p, cond, align=1):
        p = self.t2ptr(p)
        self.check_align(p, align, cond, 'store')
        k = self.c.isc(p.off)
        if isinstance(p.obj, tuple):
            # store through a data pointer: an observable event
            for o, w, t in self.lanes_of(ty, v):
                a = self.c.add(self.c.add(p.obj[1], p.off), self.c.const(64, o))
                self.events.append((cond, 'store', a, t))
            return
        if k is None:
            slots = self.sym_slots(ty, p, cond, 'store')
            for g, off in slots:
                for o, w, t in self.lanes_of(ty, v):
                    old = self.load_bits(mem, p.obj, off + o, w, FALSE)
                    self.store_bits(mem, p.obj, off + o, w, self.c.ite(g, t, old), FALSE)
            return
        if k >> 63:
            k -= 1 << 64
        for o, w, t in self.lanes_of(ty, v):
            self.store_bits(mem, p.obj, k + o, w, t, cond)

    def check_align(self, p, align, cond, what):
        if align <= 1 or isinstance(p.obj, tuple):
            return
        o = self.objs.get(p.obj)
        if o is None or o.kind in ('alloca', 'global'):
            return
        if o.align >= align:
            k = self.c.isc(p.off)
            if k is not None and k % align == 0:
                return
        t = self.p2t(p)
        bits = align.bit_length() - 1
        mis = self.c.NOT(self.c.eq(self.c.slice(t, 0, bits), self.c.const(bits, 0)))
        if mis != FALSE:
            self.ub.append((self.c.AND(cond, mis), '%s of %s assumes alignment %d' % (what, p.obj, align)))

    # ------------------------------------------------------------- merge
    def merge(self, g, a, b):
        """ite over structured values"""
        if a is b:
            return a
        if isinstance(a, list):
            return [self.merge(g, x, y) for x, y in zip(a, b)]
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, self.c.ite(g, a.off, b.off))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if g == TRUE:
                return a
            if g == FALSE:
                return b
            return PtrIte(g, a, b)
        if isinstance(a, PtrIte) or isinstance(b, PtrIte):
            return a if g == TRUE else b if g == FALSE else PtrIte(g, a, b)
        return self.tite(g, a, b)

    def merge_mem(self, states):
        """states: list of (cond, mem)"""
        if len(states) == 1:
            return dict(states[0][1])
        out = {}
        objs = set()
        rel = self.c.rel([x for x, _ in states])
        for _, m in states:
            objs |= set(m)
        for o in objs:
            segs = [self.objsegs(m, o) for _, m in states]
            if all(s is segs[0] for s in segs):
                out[o] = segs[0]
                continue
            res = {}
            offs = set()
            for s in segs:
                offs |= set(s)
            # same shape?
            ok = True
            shape = {}
            for off in offs:
                ws = {s[off][0] for s in segs if off in s}
                if len(ws) != 1:
                    ok = False
                    break
                shape[off] = ws.pop()
            if ok:
                last = -1
                for off in sorted(shape):
                    if off < last:
                        ok = False
                        break
                    last = off + shape[off] // 8
            if not ok:
                shape = {}
                for s in segs:
                    for off, (w, t) in s.items():
                        for i in range(w // 8):
                            shape[off + i] = 8
            for off, w in shape.items():
                r = None
                for cond, (_, m), s in zip(rel, states, segs):
                    e = s.get(off)
                    if e is not None and e[0] == w:
                        t = e[1]
                    else:
                        if self.objs.get(o) is not None and self.objs[o].kind == 'alloca':
                            bs = [self.byte_at(m, o, off + i) for i in range(w // 8)]
                            if all(b is None for b in bs):
                                continue
                            t = self.c.cat([self.poison(8) if b is None else b for b in bs])
                        else:
                            t = self.load_bits(m, o, off, w, FALSE)
                    r = t if r is None else self.tite(cond, t, r)
                if r is not None:
                    res[off] = (w, r)
            out[o] = res
        return out

    # --------------------------------------------------------------- run
    def run(self, fname, args, cond=TRUE, mem=None):
        f = self.mod.funcs[fname]
        if self.depth > 40:
            raise Unsupported('call depth')
        params = self.mod.parse_header(f)
        blocks = parse_blocks(self.mod, f)
        names = [b[0] for b in blocks]
        if names and names[0] == '0entry':
            # implicit entry label: number after the unnamed params
            pass
        idx = {n: i for i, n in enumerate(names)}
        env = {}
        for (ty, nm, at), a in zip(params, args):
            if nm is not None:
                env[nm] = a
        k = 0
        for (ty, nm, at), a in zip(params, args):
            if nm is None:
                env[str(k)] = a
                k += 1
        # implicit entry block name
        if names[0] == '0entry':
            n0 = sum(1 for p in params if p[1] is None or p[1].isdigit())
            idx[str(n0)] = 0
        if f._plan is None:
            parsed = []
            succs = []
            for i, (nm, ls) in enumerate(blocks):
                ins = [self.parse_inst(l) for l in ls]
                parsed.append(ins)
                succs.append([idx[x] for x in ins[-1].get('succ', [])])
            phis = []
            for ins in parsed:
                ps = []
                for x in ins:
                    if x['op'] != 'phi':
                        break
                    ps.append((x['res'], x['ty'], {idx[lb]: v for v, lb in x['inc']}))
                phis.append(ps)
            live = {i for i, ins in enumerate(parsed) if ins[-1]['op'] == 'ret'}
            while True:
                more = {i for i, x in enumerate(succs) if i not in live and live & set(x)}
                if not more:
                    break
                live |= more
            f._plan = (parsed, self.schedule(succs), phis, live)
        parsed, plan, phis, live = f._plan
        incoming = {i: [] for i in range(len(blocks))}   # list of (pred idx, cond, mem, phi values)
        rets = []

        def edge(bi, to, cnd, m):
            # phi operands are read when the edge is taken: the next iteration of a loop overwrites them
            if cnd != FALSE:
                incoming[to].append((bi, cnd, m, [self.val(env, ty, pv[bi]) for _, ty, pv in phis[to]]))

        def block(bi, entry=None):
            if entry is not None:
                cnd, m = entry[0], dict(entry[1])
            else:
                inc = incoming[bi]
                incoming[bi] = []
                if not inc:
                    return
                if len(inc) > 2000:
                    raise Unsupported('fan-in')
                if len(inc) > 1 and bi not in live:
                    # never returns: follow the paths into it one by one instead of merging their states
                    for x in inc:
                        for k, (res, _, _) in enumerate(phis[bi]):
                            env[res] = x[3][k]
                        block(bi, (x[1], x[2]))
                    return
                cnd = FALSE
                for x in inc:
                    cnd = self.c.OR(cnd, x[1])
                m = self.merge_mem([(x[1], x[2]) for x in inc])
                rel = self.c.rel([x[1] for x in inc]) if phis[bi] else ()
                for k, (res, _, _) in enumerate(phis[bi]):
                    r = None
                    for g, x in zip(rel, inc):
                        r = x[3][k] if r is None else self.merge(g, x[3][k], r)
                    env[res] = r
            for ins in parsed[bi]:
                self.ninsts += 1
                op = ins['op']
                if op == 'phi':
                    continue
                t = self.step(ins, env, m, cnd)
                if t == 'stop':
                    return
                if t is not None:
                    cnd = t[1]
                    if cnd == FALSE:
                        return
                if op == 'br':
                    if ins['cond'] is None:
                        edge(bi, idx[ins['succ'][0]], cnd, m)
                    else:
                        cv = self.c.tobool(self.branch_on(self.val(env, Int(1), ins['cond']), cnd))
                        a, b = ins['succ']
                        if a == b:
                            edge(bi, idx[a], cnd, m)
                        else:
                            edge(bi, idx[a], self.c.AND(cnd, cv), m)
                            edge(bi, idx[b], self.c.AND(cnd, self.c.NOT(cv)), dict(m))
                elif op == 'switch':
                    v = self.branch_on(self.val(env, ins['ty'], ins['val']), cnd)
                    rest = cnd
                    per = {}
                    for cv, lb in ins['cases']:
                        e = self.c.eq(v, self.const_value(ins['ty'], cv))
                        x = self.c.AND(cnd, e)
                        per[lb] = self.c.OR(per.get(lb, FALSE), x)
                        rest = self.c.AND(rest, self.c.NOT(e))
                    per[ins['default']] = self.c.OR(per.get(ins['default'], FALSE), rest)
                    for lb, x in per.items():
                        edge(bi, idx[lb], x, dict(m))
                elif op == 'ret':
                    v = None if ins['val'] is None else self.val(env, ins['ty'], ins['val'])
                    rets.append((cnd, v, m))
                elif op == 'unreachable':
                    if cnd != FALSE:
                        self.ub.append((cnd, 'unreachable executed'))

        def walk(items):
            for it in items:
                if isinstance(it, int):
                    block(it)
                    continue
                head, body = it
                n = 0
                while incoming[head]:
                    n += 1
                    if n > 1200:
                        raise Unsupported('loop without a constant bound')
                    block(head)
                    walk(body)
        block(0, (cond, mem if mem is not None else {}))
        walk(plan)
        if not rets:
            return FALSE, None, {}
        rc = FALSE
        rv = None
        for g, (cnd, v, m) in zip(self.c.rel([x[0] for x in rets]), rets):
            rc = self.c.OR(rc, cnd)
            rv = v if rv is None else self.merge(g, v, rv)
        rm = self.merge_mem([(x[0], x[2]) for x in rets])
        return rc, rv, rm

    def branch_on(self, v, cond):
        if self.raw:
            self.bad(self.c.AND(cond, self.indet(v)), 'branch on an indeterminate value')
        return v

    # rules for the code as rustc emits it, before any optimisation (configuration raw)
    def bad(self, cond, what):
        if cond != FALSE:
            self.ub.append((cond, what))

    def indet(self, v):
        if not isinstance(v, int):
            return FALSE
        from core import poison_cond
        return poison_cond(self.c, v, self.pmemo)

    def unchecked(self, op, flags, x, y, cond):
        """an operation rustc marked as never overflowing (unchecked_add and the like)"""
        c = self.c
        x, y = self.p2t(x), self.p2t(y)
        w = c.w(x)
        cx, cy = c.isc(x), c.isc(y)
        for f in flags & {'nuw', 'nsw'}:
            if op not in ('add', 'sub', 'mul'):
                continue
            s = f == 'nsw'
            if cx is not None and cy is not None:
                a, b = (x_ - (1 << w) if s and x_ >> (w - 1) else x_ for x_ in (cx, cy))
                v = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
                o = FALSE if lo <= v <= hi else TRUE
            elif op == 'add' and not s:
                o = c.ult(c.add(x, y), x)
            elif op == 'sub' and not s:
                p, q = self.t2p.get(x), self.t2p.get(y)
                if p is not None and q is not None:
                    # addresses: objects do not wrap around
                    o = c.ult(p.off, q.off) if p.obj == q.obj else FALSE
                else:
                    o = c.ult(x, y)
            elif op == 'mul' and not s and (cx is not None or cy is not None):
                a, k = (x, cy) if cy is not None else (y, cx)
                o = FALSE if k < 2 else c.NOT(c.ultc(a, ((1 << w) - 1) // k + 1))
            elif s and c.bit(x, w - 1) == FALSE and c.bit(y, w - 1) == FALSE and op != 'mul':
                o = FALSE if op == 'sub' else c.bit(c.add(x, y), w - 1)
            else:
                o = c.var(('ovf', ('s' if s else 'u') + op, x, y))
            self.bad(c.AND(cond, o), 'overflow of an unchecked %s' % op)
        if 'exact' in flags and op in ('lshr', 'ashr') and cy is not None and 0 < cy < w:
            self.bad(c.AND(cond, c.NOT(c.eq(c.slice(x, 0, cy), c.const(cy, 0)))), 'remainder of an exact shift')
        return x

    def inbounds(self, p, cond):
        """ptr::add / ptr::offset must stay inside the object, or just behind it"""
        o = self.objs.get(p.obj)
        if o is None:
            return
        what = 'pointer arithmetic beyond %s' % o.name
        k = self.c.isc(p.off)
        if k is not None:
            if k >> 63:
                self.bad(cond, what)
            elif o.dyn is not None:
                self.bad(self.c.AND(cond, self.c.ultc(o.dyn[0], -(-k // o.dyn[1]))), what)
            elif o.size is not None and k > o.size:
                self.bad(cond, what)
        elif o.size is not None and o.dyn is None:
            self.bad(self.c.AND(cond, self.c.NOT(self.c.ultc(p.off, o.size + 1))), what)

    def valid(self, d, v, cond):
        """the validity requirements rustc attaches to a load: initialised, in the range of its type, not null"""
        c = self.c
        if d.get('noundef') or d.get('range'):
            self.bad(c.AND(cond, self.indet(v)), 'load of an uninitialised value')
        if not isinstance(v, int):
            return
        m = re.match(r'!\{(.*)\}$', self.mod.meta.get(d.get('range') or '', ''))
        if m:
            ks = [int(x.split()[1]) if x.split()[1] not in ('true', 'false') else int(x.split()[1] == 'true')
                  for x in m.group(1).split(', ')]
            w = c.w(v)
            inr = FALSE
            for lo, hi in zip(ks[::2], ks[1::2]):
                lo, hi = lo % (1 << w), hi % (1 << w)
                ge = c.NOT(c.ultc(v, lo))
                lt = c.ultc(v, hi) if hi else TRUE
                inr = c.OR(inr, c.AND(ge, lt) if lo < hi or not hi else c.OR(ge, lt))
            self.bad(c.AND(cond, c.NOT(inr)), 'load of a value its type does not have')
        elif d.get('nonnull'):
            self.bad(c.AND(cond, self.icmp('eq', v, c.const(c.w(v), 0))), 'load of a null reference')

    def schedule(self, succs):
        """blocks after the entry in an order where every block follows its predecessors; a natural loop is one item
        (header, body) whose body is ordered the same way (loops are unrolled along constant trip counts)"""
        n = len(succs)
        if 0 in {s for x in succs for s in x}:
            raise Unsupported('branch to the entry')

        def sccs(nodes, entry, skip):
            # strongly connected components of the subgraph without edges into `skip`, in topological order
            index, low, onst, st, out = {}, {}, set(), [], []
            work = [(entry, iter(succs[entry]))]
            index[entry] = low[entry] = 0
            st.append(entry)
            onst.add(entry)
            k = 1
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in nodes or w == skip:
                        continue
                    if w not in index:
                        index[w] = low[w] = k
                        k += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter(succs[w])))
                        break
                    if w in onst:
                        low[v] = min(low[v], index[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == index[v]:
                        comp = set()
                        while True:
                            w = st.pop()
                            onst.discard(w)
                            comp.add(w)
                            if w == v:
                                break
                        out.append((v, comp))
            return out[::-1]

        def order(nodes, entry, skip):
            items = []
            for first, comp in sccs(nodes, entry, skip):
                if len(comp) == 1 and (first not in succs[first] or first == skip):
                    items.append(first)
                    continue
                heads = {w for v in nodes - comp for w in succs[v] if w in comp and w != skip}
                if first == entry:
                    heads.add(entry)
                if len(heads) != 1:
                    raise Unsupported('irreducible loop')
                h = heads.pop()
                if h == skip:
                    raise Unsupported('irreducible loop')
                items.append((h, order(comp, h, h)[1:]))
            return items
        return order(set(range(n)), 0, None)[1:]

    # ------------------------------------------------------------ parsing
    def parse_inst(self, l):
        r = _parsecache.get(l)
        if r is None:
            # cut metadata attachments
            q = re.sub(r', ![a-zA-Z._0-9]+ !\d+', '', l)
            try:
                r = self._parse(q)
                if r['op'] == 'load':
                    m = re.search(r', !range !(\d+)', l)
                    r['range'] = m and m.group(1)
                    r['noundef'] = '!noundef' in l
                    r['nonnull'] = '!nonnull' in l
            except (ValueError, IndexError, KeyError) as e:
                r = {'op': 'bad', 'why': '%s: %s' % (e, l[:200])}
                if 'label' in l:
                    raise Unsupported(r['why'])
            if len(_parsecache) > 400000:
                _parsecache.clear()
            _parsecache[l] = r
        return r

    def _parse(self, l):
        p = P(tokenize(l), self.mod)
        res = None
        if p.kind() == 'local' and p.peek(1) == '=':
            res = unq(p.next())
            p.next()
        op = p.next()
        while op in FLAGS:
            op = p.next()
        d = {'op': op, 'res': res}

        def flags():
            r = set()
            while p.kind() == 'id' and p.peek() in FLAGS:
                r.add(p.next())
            return r
        if op in BIN:
            d['flags'] = flags()
            d['ty'] = t = p.type()
            d['a'] = p.value(t)
            p.expect(',')
            d['b'] = p.value(t)
        elif op == 'fneg':
            flags()
            d['ty'] = t = p.type()
            d['a'] = p.value(t)
        elif op == 'freeze':
            d['ty'] = t = p.type()
            d['a'] = p.value(t)
        elif op in ('icmp', 'fcmp'):
            flags()
            d['pred'] = p.next()
            d['ty'] = t = p.type()
            d['a'] = p.value(t)
            p.expect(',')
            d['b'] = p.value(t)
        elif op in CASTS:
            flags()
            d['ty'] = t = p.type()
            d['a'] = p.value(t)
            p.expect('to')
            d['to'] = p.type()
        elif op == 'select':
            flags()
            d['ct'] = t = p.type()
            d['c'] = p.value(t)
            p.expect(',')
            d['ty'] = t = p.type()
            d['a'] = p.value(t)
            p.expect(',')
            t2 = p.type()
            d['b'] = p.value(t2)
        elif op == 'phi':
            flags()
            d['ty'] = t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                lb = unq(p.next())
                p.expect(']')
                inc.append((v, lb))
                if not p.accept(','):
                    break
            d['inc'] = inc
        elif op == 'br':
            t = p.type()
            if t.k == 'label':
                d['cond'] = None
                d['succ'] = [unq(p.next())]
            else:
                d['cond'] = p.value(t)
                p.expect(',')
                p.expect('label')
                a = unq(p.next())
                p.expect(',')
                p.expect('label')
                d['succ'] = [a, unq(p.next())]
        elif op == 'switch':
            d['ty'] = t = p.type()
            d['val'] = p.value(t)
            p.expect(',')
            p.expect('label')
            d['default'] = unq(p.next())
            p.expect('[')
            cs = []
            while not p.accept(']'):
                tt = p.type()
                v = p.value(tt)
                p.expect(',')
                p.expect('label')
                cs.append((v, unq(p.next())))
            d['cases'] = cs
            d['succ'] = [d['default']] + [x[1] for x in cs]
        elif op == 'ret':
            d['ty'] = t = p.type()
            d['val'] = None if t.k == 'void' else p.value(t)
        elif op == 'unreachable':
            pass
        elif op == 'load':
            flags()
            atomic = p.accept('atomic')
            flags()
            d['ty'] = p.type()
            p.expect(',')
            t = p.type()
            d['ptr'] = p.value(t)
            d['align'] = self._align(l)
        elif op == 'store':
            flags()
            p.accept('atomic')
            flags()
            d['ty'] = t = p.type()
            d['a'] = p.value(t)
            p.expect(',')
            t = p.type()
            d['ptr'] = p.value(t)
            d['align'] = self._align(l)
        elif op == 'atomicrmw':
            flags()
            d['rmw'] = p.next()
            d['ptr'] = p.value(p.type())
            p.expect(',')
            d['ty'] = t = p.type()
            d['a'] = p.value(t)
            d['align'] = self._align(l)
        elif op == 'cmpxchg':
            p.accept('weak')
            flags()
            d['ptr'] = p.value(p.type())
            p.expect(',')
            d['ty'] = t = p.type()
            d['a'] = p.value(t)
            p.expect(',')
            d['b'] = p.value(p.type())
            d['align'] = self._align(l)
        elif op == 'alloca':
            d['ty'] = p.type()
            d['align'] = self._align(l)
        elif op == 'getelementptr':
            d['flags'] = flags()
            d['bt'] = p.type()
            ops = []
            while p.accept(','):
                flags()
                t = p.type()
                ops.append((t, p.value(t)))
            d['ops'] = ops
        elif op == 'extractelement':
            d['ty'] = t = p.type()
            d['a'] = p.value(t)
            p.expect(',')
            d['it'] = t = p.type()
            d['i'] = p.value(t)
        elif op == 'insertelement':
            d['ty'] = t = p.type()
            d['a'] = p.value(t)
            p.expect(',')
            d['et'] = t = p.type()
            d['b'] = p.value(t)
            p.expect(',')
            d['it'] = t = p.type()
            d['i'] = p.value(t)
        elif op == 'shufflevector':
            d['ty'] = t = p.type()
            d['a'] = p.value(t)
            p.expect(',')
            t2 = p.type()
            d['b'] = p.value(t2)
            p.expect(',')
            d['mt'] = t3 = p.type()
            d['m'] = p.value(t3)
        elif op == 'extractvalue':
            d['ty'] = t = p.type()
            d['a'] = p.value(t)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()))
            d['ix'] = ix
        elif op == 'insertvalue':
            d['ty'] = t = p.type()
            d['a'] = p.value(t)
            p.expect(',')
            d['et'] = t = p.type()
            d['b'] = p.value(t)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()))
            d['ix'] = ix
        elif op == 'call':
            # skip ret attrs / cconv
            while p.kind() == 'id' and p.peek() not in ('void', 'ptr', 'float', 'double', 'half', 'x86_fp80', 'fp128') \
                    and not re.fullmatch(r'i\d+', p.peek()):
                x = p.next()
                if x == 'align' or x == 'dereferenceable' or x == 'dereferenceable_or_null' or x == 'range':
                    if p.accept('('):
                        while p.next() != ')':
                            pass
                    else:
                        p.next()
                elif p.peek() == '(':
                    dd = 0
                    while True:
                        y = p.next()
                        dd += {'(': 1, ')': -1}.get(y, 0)
                        if dd == 0:
                            break
            d['ty'] = p.type()
            if p.peek() == '(':      # function type
                dd = 0
                while True:
                    y = p.next()
                    dd += {'(': 1, ')': -1}.get(y, 0)
                    if dd == 0:
                        break
            if p.peek() == 'asm':
                d['callee'] = ('asm',)
                d['args'] = []
                d['text'] = l
                return d
            d['callee'] = p.value(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    t = p.type()
                    if t.k == 'metadata':
                        p.skip_to_comma()
                        args.append((t, None))
                        if p.i >= len(p.t) or p.peek() is None:
                            break
                    else:
                        al = 1
                        while True:
                            k, x = p.t[p.i]
                            if k == 'id' and x not in ('true', 'false', 'null', 'undef', 'poison', 'zeroinitializer',
                                                       'getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'splat',
                                                       'none', 'add', 'sub', 'trunc', 'zext', 'sext', 'mul', 'xor'):
                                p.i += 1
                                if x == 'align' and p.kind() == 'num':
                                    al = int(p.next())
                                elif p.peek() == '(':
                                    dd = 0
                                    while True:
                                        y = p.next()
                                        dd += {'(': 1, ')': -1}.get(y, 0)
                                        if dd == 0:
                                            break
                                continue
                            break
                        args.append((t, p.value(t), al))
                    if p.accept(')'):
                        break
                    if not p.accept(','):
                        break
            d['args'] = args
            tail = ''
            while p.i < len(p.t):
                k, x = p.t[p.i]
                if k == 'attr':
                    tail += self.mod.attrs.get(x, '')
                elif k == 'id':
                    tail += ' ' + x
                p.i += 1
            d['noreturn'] = 'noreturn' in tail
        elif op in ('fence',):
            pass
        else:
            raise ValueError('opcode ' + op)
        return d

    def _align(self, l):
        m = re.search(r', align (\d+)', l)
        return int(m.group(1)) if m else 1

    # -------------------------------------------------------------- values
    def val(self, env, ty, v):
        k = v[0]
        if k == 'l':
            return env[v[1]]
        if k == 'int':
            if ty.k == 'int':
                return self.c.const(ty.a, v[1])
        return self.const_value(ty, v)

    def vmap(self, ty, fn, *vs):
        """apply scalar fn over vectors or scalars"""
        ty = self.mod.resolve(ty)
        if ty.k == 'vec':
            return [fn(*[v[i] for v in vs]) for i in range(ty.a)]
        return fn(*vs)

    def ebits(self, ty):
        ty = self.mod.resolve(ty)
        return self.mod.bits(ty.b) if ty.k == 'vec' else self.mod.bits(ty)

    # ---------------------------------------------------------------- step
    def step(self, d, env, mem, cond):
        op = d['op']
        c = self.c
        if op in ('br', 'switch', 'ret', 'unreachable', 'fence'):
            return None
        if op == 'bad':
            if cond != FALSE:
                raise Unsupported(d['why'])
            return None
        if op in BIN:
            w = self.ebits(d['ty'])
            a, b = self.val(env, d['ty'], d['a']), self.val(env, d['ty'], d['b'])
            env[d['res']] = self.vmap(d['ty'], lambda x, y: self.binop(op, w, x, y, cond), a, b)
            if self.raw and d['flags'] and op[0] != 'f':
                self.vmap(d['ty'], lambda x, y: self.unchecked(op, d['flags'], x, y, cond), a, b)
        elif op == 'fneg':
            a = self.val(env, d['ty'], d['a'])
            env[d['res']] = self.vmap(d['ty'], c.flipsign, a)
        elif op == 'freeze':
            env[d['res']] = self.val(env, d['ty'], d['a'])
        elif op == 'icmp':
            a, b = self.val(env, d['ty'], d['a']), self.val(env, d['ty'], d['b'])
            env[d['res']] = self.vmap(d['ty'], lambda x, y: c.boolterm(self.icmp(d['pred'], x, y)), a, b)
        elif op == 'fcmp':
            a, b = self.val(env, d['ty'], d['a']), self.val(env, d['ty'], d['b'])
            env[d['res']] = self.vmap(d['ty'], lambda x, y: c.boolterm(c.fcmp(d['pred'], x, y)), a, b)
        elif op in CASTS:
            env[d['res']] = self.cast(op, d['ty'], self.val(env, d['ty'], d['a']), d['to'], cond)
        elif op == 'select':
            g = self.val(env, d['ct'], d['c'])
            a, b = self.val(env, d['ty'], d['a']), self.val(env, d['ty'], d['b'])
            if isinstance(g, list):
                env[d['res']] = [self.merge(c.tobool(x), y, z) for x, y, z in zip(g, a, b)]
            else:
                env[d['res']] = self.merge(c.tobool(g), a, b)
        elif op == 'load':
            p = self.val(env, PTR, d['ptr'])
            v = env[d['res']] = self.loadp(mem, d['ty'], p, cond, d['align'])
            if self.raw and not isinstance(v, (list, tuple)):
                self.valid(d, v, cond)
        elif op == 'store':
            v = self.val(env, d['ty'], d['a'])
            p = self.val(env, PTR, d['ptr'])
            p = self.choose(p, cond)
            if isinstance(p, PtrIte):
                self.store_ite(mem, d['ty'], v, p, cond, TRUE)
            else:
                self.store(mem, d['ty'], v, p, cond, d['align'])
        elif op in ('atomicrmw', 'cmpxchg'):
            p = self.choose(self.val(env, PTR, d['ptr']), cond)
            if isinstance(p, PtrIte):
                raise Unsupported(op + ' of a choice')
            old = self.load(mem, d['ty'], p, cond, d['align'])
            a = self.val(env, d['ty'], d['a'])
            w = self.mod.bits(d['ty'])
            if op == 'cmpxchg':
                b = self.val(env, d['ty'], d['b'])
                hit = self.icmp('eq', old, a)
                new = self.merge(hit, b, old)
                env[d['res']] = [old, c.boolterm(hit)]
            else:
                k = d['rmw']
                if k == 'xchg':
                    new = a
                elif k == 'nand':
                    new = c.not_(c.and_(self.p2t(old), self.p2t(a)))
                elif k in ('max', 'min', 'umax', 'umin'):
                    new = c.nary(k if k[0] == 'u' else 's' + k, w, [self.p2t(old), self.p2t(a)])
                else:
                    new = self.binop(k, w, old, a)
                env[d['res']] = old
            self.store(mem, d['ty'], new, p, cond, d['align'])
        elif op == 'alloca':
            self.nalloca += 1
            nm = 'alloca%d' % self.nalloca
            self.objs[nm] = Obj(nm, self.mod.size(d['ty']), None, max(d['align'], 1), 'alloca')
            env[d['res']] = Ptr(nm, c.const(64, 0))
        elif op == 'getelementptr':
            base = self.val(env, *d['ops'][0])
            if isinstance(base, list) or any(self.mod.resolve(t).k == 'vec' for t, _ in d['ops']):
                n = next(self.mod.resolve(t).a for t, _ in d['ops'] if self.mod.resolve(t).k == 'vec')
                vals = [(t, self.val(env, t, v)) for t, v in d['ops']]
                out = []
                for i in range(n):
                    b = vals[0][1][i] if isinstance(vals[0][1], list) else vals[0][1]
                    ix = [(self.mod.resolve(t).b if self.mod.resolve(t).k == 'vec' else t,
                           v[i] if isinstance(v, list) else v) for t, v in vals[1:]]
                    out.append(self.gep(d['bt'], b, ix))
                env[d['res']] = out
            else:
                r = env[d['res']] = self.gep(d['bt'], base, [(t, self.val(env, t, v)) for t, v in d['ops'][1:]])
                if self.raw and 'inbounds' in d['flags'] and isinstance(r, Ptr):
                    self.inbounds(r, cond)
        elif op == 'extractelement':
            a = self.val(env, d['ty'], d['a'])
            i = self.val(env, d['it'], d['i'])
            env[d['res']] = self.pick(a, i, cond)
        elif op == 'insertelement':
            a = list(self.val(env, d['ty'], d['a']))
            b = self.val(env, d['et'], d['b'])
            i = self.val(env, d['it'], d['i'])
            k = c.isc(i)
            if k is not None:
                if k >= len(a):
                    self.ub.append((cond, 'poison:insertelement out of range'))
                else:
                    a[k] = b
            else:
                inb = c.ultc(i, len(a))
                for j, g in enumerate(self.lane_conds(i, len(a), cond)):
                    a[j] = self.merge(g, b, a[j])
                    if inb != TRUE:
                        a[j] = self.merge(inb, a[j], self.poison(c.w(self.p2t(b))))
            env[d['res']] = a
        elif op == 'shufflevector':
            a = self.val(env, d['ty'], d['a'])
            b = self.val(env, d['ty'], d['b'])
            mt = self.mod.resolve(d['mt'])
            m = d['m']
            w = self.ebits(d['ty'])
            if m[0] == 'zero':
                ix = [0] * mt.a
            elif m[0] in ('undef', 'poison'):
                ix = [None] * mt.a
            elif m[0] == 'splat':
                ix = [m[1][1]] * mt.a
            else:
                ix = [x[1][1] if x[1][0] == 'int' else (0 if x[1][0] == 'zero' else None) for x in m[1]]
            ab = list(a) + list(b)
            env[d['res']] = [self.poison(w) if i is None else ab[i] for i in ix]
        elif op == 'extractvalue':
            v = self.val(env, d['ty'], d['a'])
            for i in d['ix']:
                v = v[i]
            env[d['res']] = v
        elif op == 'insertvalue':
            v = self.val(env, d['ty'], d['a'])
            b = self.val(env, d['et'], d['b'])

            def ins(v, ix):
                if not ix:
                    return b
                v = list(v)
                v[ix[0]] = ins(v[ix[0]], ix[1:])
                return v
            env[d['res']] = ins(v, d['ix'])
        elif op == 'call':
            return self.call(d, env, mem, cond)
        else:
            raise Unsupported(op)
        return None

    def loadp(self, mem, ty, p, cond, align):
        p = self.choose(p, cond)
        if isinstance(p, PtrIte):
            a = self.loadp(mem, ty, p.a, self.c.AND(cond, p.g), 1)
            b = self.loadp(mem, ty, p.b, self.c.AND(cond, self.c.NOT(p.g)), 1)
            return self.merge(p.g, a, b)
        return self.load(mem, ty, p, cond, align)

    def store_ite(self, mem, ty, v, p, cond, g):
        if isinstance(p, PtrIte):
            self.store_ite(mem, ty, v, p.a, cond, self.c.AND(g, p.g))
            self.store_ite(mem, ty, v, p.b, cond, self.c.AND(g, self.c.NOT(p.g)))
            return
        p = self.t2ptr(p)
        k = self.c.isc(p.off)
        if isinstance(p.obj, tuple):
            raise Unsupported('store through merged pointer')
        if k is None:
            for h, off in self.sym_slots(ty, p, self.c.AND(cond, g), 'store'):
                for o, w, t in self.lanes_of(ty, v):
                    old = self.load_bits(mem, p.obj, off + o, w, FALSE)
                    self.store_bits(mem, p.obj, off + o, w, self.merge(self.c.AND(g, h), t, old), FALSE)
            return
        for o, w, t in self.lanes_of(ty, v):
            old = self.load_bits(mem, p.obj, k + o, w, FALSE)
            self.store_bits(mem, p.obj, k + o, w, self.merge(g, t, old), cond)

    def lane_conds(self, i, n, cond):
        c = self.c
        inb = c.ultc(i, n)
        bad = c.AND(cond, c.NOT(inb))
        if bad != FALSE:
            self.ub.append((bad, 'poison:lane index not below %d' % n))
        if n == 1:
            return [TRUE]
        if n & (n - 1) == 0:
            h = n.bit_length() - 1
            s = c.slice(i, 0, h) if c.w(i) > h else i
            return [c.eq(s, c.const(c.w(s), j)) for j in range(n)]
        return [c.eq(i, c.const(c.w(i), j)) for j in range(n)]

    def pick(self, a, i, cond):
        k = self.c.isc(i)
        if k is not None:
            if k >= len(a):
                self.ub.append((cond, 'poison:extractelement out of range'))
                return self.poison(self.c.w(a[0]))
            return a[k]
        gs = self.lane_conds(i, len(a), cond)
        r = a[-1]
        for j in range(len(a) - 2, -1, -1):
            r = self.merge(gs[j], a[j], r)
        inb = self.c.ultc(i, len(a))
        if inb != TRUE:
            r = self.merge(inb, r, self.poison(self.c.w(self.p2t(a[0]))))
        return r

    def gep(self, bt, base, ops):
        c, mod = self.c, self.mod
        off = c.const(64, 0)
        t = bt
        for n, (it, iv) in enumerate(ops):
            iw = c.w(iv)
            x = c.sext(iv, 64) if iw < 64 else (c.slice(iv, 0, 64) if iw > 64 else iv)
            if n == 0:
                off = c.add(off, c.mul(x, c.const(64, mod.size(t))))
                continue
            t = mod.resolve(t)
            if t.k == 'struct':
                k = c.isc(iv)
                offs, _ = mod.layout(t)
                off = c.add(off, c.const(64, offs[k]))
                t = t.a[k]
            elif t.k == 'arr':
                off = c.add(off, c.mul(x, c.const(64, mod.size(t.b))))
                t = t.b
            elif t.k == 'vec':
                off = c.add(off, c.mul(x, c.const(64, mod.store(t.b))))
                t = t.b
            else:
                raise Unsupported('gep')
        if isinstance(base, int):
            base = self.t2i.get(base, base)
        if isinstance(base, PtrIte):
            return base.map(lambda p: self.padd(p, off))
        return self.padd(base, off)

    def icmp(self, pred, x, y):
        c = self.c
        if self.t2i:
            x, y = (self.t2i.get(z, z) if isinstance(z, int) else z for z in (x, y))
        if isinstance(x, PtrIte) or isinstance(y, PtrIte):
            if isinstance(x, PtrIte):
                return c.bite(x.g, self.icmp(pred, x.a, y), self.icmp(pred, x.b, y))
            return c.bite(y.g, self.icmp(pred, x, y.a), self.icmp(pred, x, y.b))
        if isinstance(x, int) and isinstance(y, Ptr) or isinstance(y, int) and c.isc(y) == 0:
            x = self.t2p.get(x, x) if isinstance(x, int) else x
        if isinstance(y, int) and isinstance(x, Ptr) or isinstance(x, int) and c.isc(x) == 0:
            y = self.t2p.get(y, y) if isinstance(y, int) else y
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
            x, y = x.off, y.off
        else:
            for p, q in ((x, y), (y, x)):
                # address of an object is never null
                if isinstance(p, Ptr) and isinstance(q, int) and c.isc(q) == 0 and pred in ('eq', 'ne'):
                    return FALSE if pred == 'eq' else TRUE
            x, y = self.p2t(x), self.p2t(y)
        if pred == 'eq':
            return c.eq(x, y)
        if pred == 'ne':
            return c.NOT(c.eq(x, y))
        if pred == 'ult':
            return c.ult(x, y)
        if pred == 'ugt':
            return c.ult(y, x)
        if pred == 'ule':
            return c.NOT(c.ult(y, x))
        if pred == 'uge':
            return c.NOT(c.ult(x, y))
        if pred == 'slt':
            return c.slt(x, y)
        if pred == 'sgt':
            return c.slt(y, x)
        if pred == 'sle':
            return c.NOT(c.slt(y, x))
        if pred == 'sge':
            return c.NOT(c.slt(x, y))
        raise Unsupported(pred)

    def binop(self, op, w, x, y, cond=FALSE):
        c = self.c
        x, y = self.p2t(x), self.p2t(y)
        if self.ispoison(x) or self.ispoison(y):
            return self.poison(w)
        if op == 'add':
            return c.add(x, y)
        if op == 'sub':
            return c.sub(x, y)
        if op == 'mul':
            return c.mul(x, y)
        if op == 'and':
            return c.and_(x, y)
        if op == 'or':
            return c.or_(x, y)
        if op == 'xor':
            return c.xor(x, y)
        if op in ('shl', 'lshr', 'ashr'):
            return self.shift(op, w, x, y, cond)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            return self.divrem(op, w, x, y, cond)
        return self.fbin(op, w, x, y)

    def shift(self, op, w, x, y, cond):
        c = self.c
        k = c.isc(y)
        if k is not None:
            if k >= w:
                self.ub.append((cond, 'poison:shift by %d of a %d-bit value' % (k, w)))
                return self.poison(w)
            if k == 0:
                return x
            if op == 'shl':
                return c.cat([c.const(k, 0), c.slice(x, 0, w - k)])
            if op == 'lshr':
                return c.cat([c.slice(x, k, w - k), c.const(k, 0)])
            return c.cat([c.slice(x, k, w - k), c.fill(k, c.bit(x, w - 1))])
        if c.n[y][0] == 'ite':
            ls = c.leaves(y, 128)
            if ls is not None and all(c.isc(z) is not None for z in ls):
                return c.lift(lambda z: self.shift(op, w, x, z, FALSE), y)
        over = c.NOT(c.ultc(y, w))
        bad = c.AND(cond, over)
        if bad != FALSE:
            self.ub.append((bad, 'poison:%s amount not below %d' % (op, w)))
        if c.isc(x) == 0:
            return x
        if op == 'ashr':
            if c.bit(x, w - 1) == FALSE:
                op = 'lshr'
            elif c.n[x][0] in ('fill',):
                return c.ite(over, self.poison(w), x)
        if w & (w - 1) == 0:
            # a count in range is determined by its low bits
            k = w.bit_length() - 1
            y = c.zext(c.slice(y, 0, k), w)
        return c.ite(over, self.poison(w), c.op(op, w, x, y))

    def divrem(self, op, w, x, y, cond):
        c = self.c
        z = c.eq(y, c.const(w, 0))
        bad = c.AND(cond, z)
        if bad != FALSE:
            self.ub.append((bad, '%s by a zero lane' % op))
        if op[0] == 's':
            ov = c.AND(c.eq(y, c.const(w, -1)), c.eq(x, c.const(w, 1 << (w - 1))))
            bad = c.AND(cond, ov)
            if bad != FALSE:
                self.ub.append((bad, '%s overflow (MIN / -1)' % op))
        k = c.isc(y)
        if k is not None and k and k & (k - 1) == 0:
            s = k.bit_length() - 1
            if op == 'udiv':
                return self.shift('lshr', w, x, c.const(w, s), FALSE)
            if op == 'urem':
                return c.zext(c.slice(x, 0, s), w) if s else c.const(w, 0)
            if k == 1:
                return x if op == 'sdiv' else c.const(w, 0)
        xx = c.isc(x)
        if k and xx is not None and op[0] == 'u':
            return c.const(w, xx // k if op == 'udiv' else xx % k)
        return c.op(op, w, x, y)

    def fbin(self, op, w, x, y):
        c = self.c
        one = {16: 0x3c00, 32: 0x3f800000, 64: 0x3ff0000000000000}.get(w)
        sign = 1 << (w - 1)
        cx, cy = c.isc(x), c.isc(y)
        if op == 'fmul':
            if cy == one:
                return x
            if cx == one:
                return y
            if cy == one | sign:
                return c.flipsign(x)
            if cx == one | sign:
                return c.flipsign(y)
            # (-a)*(-b) and sign pulling are left alone
            return c.opc('fmul', w, x, y)
        if op == 'fadd':
            if cy == sign:
                return x
            if cx == sign:
                return y
            return c.opc('fadd', w, x, y)
        if op == 'fsub':
            if cy == 0:
                return x
            if cx == sign:
                return c.flipsign(y)
            return c.op('fsub', w, x, y)
        if op == 'fdiv' and cy == one:
            return x
        return c.op(op, w, x, y)

    def cast(self, op, fty, v, tty, cond=FALSE):
        c, mod = self.c, self.mod
        fty, tty = mod.resolve(fty), mod.resolve(tty)
        if op == 'bitcast':
            if fty.k != 'vec' and tty.k != 'vec':
                return v
            ts = [self.p2t(x) for x in v] if isinstance(v, list) else [self.p2t(v)]
            if tty.k == 'vec':
                w = mod.bits(tty.b)
                if fty.k == 'vec' and mod.bits(fty.b) == w:
                    return ts
                t = c.cat(ts)
                return [c.slice(t, i * w, w) for i in range(tty.a)]
            return c.cat(ts)
        fw, tw = self.ebits(fty), self.ebits(tty)
        return self.vmap(fty, lambda x: self.cast1(op, fw, tw, x, cond), v)

    def cast1(self, op, fw, tw, x, cond=FALSE):
        c = self.c
        if op == 'trunc':
            return c.slice(self.p2t(x), 0, tw)
        if op == 'zext':
            return c.zext(x, tw)
        if op == 'sext':
            return c.sext(x, tw)
        if op == 'ptrtoint':
            if isinstance(x, PtrIte):
                return c.ite(x.g, self.cast1(op, fw, tw, x.a), self.cast1(op, fw, tw, x.b))
            t = self.p2t(x)
            return c.slice(t, 0, tw) if tw < 64 else c.zext(t, tw)
        if op == 'inttoptr':
            t = c.zext(x, 64) if fw < 64 else c.slice(x, 0, 64)
            return self.t2p.get(t, t)
        if op in ('uitofp', 'sitofp'):
            return self.itofp(op, tw, x)
        if op in ('fptosi', 'fptoui'):
            if cond != FALSE:
                rng = c.var(('fprange', op, fw, tw, x))
                self.ub.append((c.AND(cond, c.NOT(rng)), 'poison:%s of a value outside the target range' % op))
            return c.op(op, tw, x)
        if c.n[x][0] == 'op' and op == 'fptrunc' and c.n[x][2] == 'fpext' and c.w(c.n[x][3]) == tw:
            return c.n[x][3]
        return c.op(op, tw, x)

    def itofp(self, op, tw, x):
        c = self.c
        n = c.n[x]
        if n[0] == 'c':
            import term
            v = n[2]
            if op == 'sitofp':
                v = term.sgn(v, n[1])
            if tw in (32, 64) and abs(v) < 1 << 24:
                return c.const(tw, term.valtof(float(v), tw))
        if n[0] == 'ite':
            ls = c.leaves(x, 64)
            if ls is not None:
                return c.lift(lambda z: self.itofp(op, tw, z), x)
        w = c.w(x)
        if n[0] == 'fill' or n[0] == 'cat' and all(c.n[p][0] in ('fill', 'c') for p in n[2]) and len(n[2]) <= 3:
            # boolean-derived value: small decision tree over its distinct fills
            fills = [c.n[p][2] for p in (n[2] if n[0] == 'cat' else (x,)) if c.n[p][0] == 'fill']
            if len(set(fills)) == 1:
                b = fills[0]
                parts = n[2] if n[0] == 'cat' else (x,)
                hi = c.cat([c.fill(c.w(p), TRUE) if c.n[p][0] == 'fill' else p for p in parts])
                lo = c.cat([c.fill(c.w(p), FALSE) if c.n[p][0] == 'fill' else p for p in parts])
                return c.ite(b, self.itofp(op, tw, hi), self.itofp(op, tw, lo))
        if op == 'sitofp':
            if c.bit(x, w - 1) == FALSE:
                return self.itofp('uitofp', tw, x)
            k = c.signrun(x)
            if 0 < k < w - 1:
                x = c.slice(x, 0, w - k)
            return c.op('sitofp', tw, x)
        if n[0] == 'cat':
            hi = c.n[n[2][-1]]
            if hi[0] == 'c' and hi[2] == 0:
                x = c.slice(x, 0, w - hi[1])
        return c.op('uitofp', tw, x)

    # --------------------------------------------------------------- calls
    def call(self, d, env, mem, cond):
        cal = d['callee']
        if cal[0] == 'asm':
            raise Unsupported('inline asm')
        if cal[0] != 'g':
            name = None
            p = self.val(env, PTR, cal)
            if isinstance(p, Ptr) and isinstance(p.obj, str) and p.obj.startswith('@') and self.c.isc(p.off) == 0:
                name = p.obj[1:]
            else:
                raise Unsupported('indirect call')
        else:
            name = cal[1]
        if name.startswith('llvm.'):
            if name == 'llvm.assume' and self.raw and d['args']:
                v = self.val(env, d['args'][0][0], d['args'][0][1])
                self.bad(self.c.AND(cond, self.c.OR(self.indet(v), self.c.NOT(self.c.tobool(v)))), 'assumption that does not hold')
            if re.match(r'llvm\.(lifetime|dbg|experimental\.noalias|assume|invariant|stackrestore|donothing)', name):
                return None
        f = self.mod.funcs.get(name)
        noret = d['noreturn']
        if f is not None:
            if not hasattr(f, 'attrs') or f.attrs is None:
                self.mod.parse_header(f)
            noret = noret or 'noreturn' in f.attrs
        if noret:
            if self.raw and f is not None and not f.decl and self.falls_off(f):
                self.bad(cond, 'unreachable executed')
                return 'stop'
            if 'llvm.trap' in name or name == '__ub_unreachable':
                self.ub.append((cond, name))
            else:
                self.panic = self.c.OR(self.panic, cond)
                self.panics.append((cond, {o: mem[o] for o in mem if o in self.objs and self.objs[o].kind == 'slice'}))
            return 'stop'
        if name.startswith('llvm.'):
            from intrin import intrinsic
            args = [(a[0], None if a[1] is None else self.val(env, a[0], a[1])) for a in d['args']]
            r = intrinsic(self, name, d['ty'], args, mem, cond, d)
            if d['res'] is not None:
                env[d['res']] = r
            return None
        args = [self.val(env, a[0], a[1]) for a in d['args']]
        if self.on_call is not None:
            r = self.on_call(self, name, d, args, mem, cond)
            if r is not None:
                if r == 'stop':
                    return 'stop'
                if d['res'] is not None:
                    env[d['res']] = r[0]
                return None
        if name in ('bcmp', 'memcmp'):
            env[d['res']] = self.memcmp(name, args, mem, cond)
            return None
        if name in ('memcpy', 'memmove', 'memset'):
            from intrin import intrinsic
            intrinsic(self, 'llvm.' + name, d['ty'], [(a[0], v) for a, v in zip(d['args'], args)], mem, cond, d)
            if d['res'] is not None:
                env[d['res']] = args[0]
            return None
        if f is not None and not f.decl:
            self.depth += 1
            rc, rv, rm = self.run(name, args, cond, mem)
            self.depth -= 1
            mem.clear()
            mem.update(rm)
            if d['res'] is not None:
                env[d['res']] = rv
            if rc == FALSE:
                return 'stop'
            if rc != cond:
                return ('narrow', rc)      # the callee may diverge: what follows runs only if it returned
            return None
        # pure external scalar function (libm): uninterpreted
        ty = self.mod.resolve(d['ty'])
        if ty.k in ('int', 'float') and all(self.mod.resolve(a[0]).k in ('int', 'float') for a in d['args']):
            w = self.mod.bits(ty)
            if self.mathname(name, w) == 'fabs':
                x = self.p2t(args[0])
                env[d['res']] = self.c.cat([self.c.slice(x, 0, w - 1), self.c.const(1, 0)])
                return None
            env[d['res']] = self.c.op(self.mathname(name, w) or 'call:' + self.short(name), w,
                                      *[self.p2t(x) for x in args])
            self.opaque_calls[name] = self.opaque_calls.get(name, 0) + 1
            return None
        raise Unsupported('call ' + name)

    def falls_off(self, f):
        """a diverging function that does nothing but reach `unreachable` (unreachable_unchecked)"""
        return not any(re.search(r'\b(call|invoke|br|switch)\b', l) and not re.search(r'@llvm\.(dbg|lifetime|assume)', l)
                       for _, ls in parse_blocks(self.mod, f) for l in ls)

    def mathname(self, name, w):
        """C / libm-crate elementary function: the same symbol as the intrinsic"""
        m = re.match(r'_ZN4libm4math\d+[a-z]\w*?\d+([a-z]\w*)$', self.short(name))
        b = m.group(1) if m else name
        if w == 32:
            if not b.endswith('f'):
                return None
            b = b[:-1]
        return b if b in ('sin', 'cos', 'tan', 'tanh', 'exp', 'exp2', 'log', 'log2', 'log10', 'pow', 'sqrt', 'floor',
                          'ceil', 'trunc', 'fma', 'rint', 'fabs') else None

    def short(self, name):
        return re.sub(r'17h[0-9a-f]{16}E', '', name)

    def memcmp(self, name, args, mem, cond):
        c = self.c
        n = c.isc(args[2])
        if n is None:
            raise Unsupported('memcmp with symbolic length')
        a = self.load(mem, Type('arr', n, Int(8)), args[0], cond)
        b = self.load(mem, Type('arr', n, Int(8)), args[1], cond)
        e = c.eq(c.cat(a), c.cat(b))
        if name == 'bcmp':
            return c.ite(e, c.const(32, 0), c.const(32, 1))
        l = c.ult(c.cat(a[::-1]), c.cat(b[::-1]))
        return c.ite(e, c.const(32, 0), c.ite(l, c.const(32, -1), c.const(32, 1)))


class PtrIte:
    __slots__ = ('g', 'a', 'b')

    def __init__(self, g, a, b):
        self.g, self.a, self.b = g, a, b

    def map(self, fn):
        return PtrIte(self.g, self.a.map(fn) if isinstance(self.a, PtrIte) else fn(self.a),
                      self.b.map(fn) if isinstance(self.b, PtrIte) else fn(self.b))

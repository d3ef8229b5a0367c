"""Canonical value terms used by the lane-dataflow analysis.

Every SSA value of the analysed IR is abstracted to a *term*: a hash-consed
node describing how the value is computed from the function's inputs.  The
smart constructors below keep terms in a canonical form:

  * wires          fixed bit positions (zext/trunc/shift-by-constant/bswap/
                   bitcast/shuffle) are concatenations of slices,
  * booleans       reduced ordered decision diagrams (ROBDD) over atoms; a bit
                   group that repeats one boolean is a `fill`,
  * bitwise logic  ROBDD over whole-slice atoms (bw),
  * int arithmetic polynomials modulo 2^w (poly),
  * selection      multi-terminal decision diagrams (ite),
  * the rest       uninterpreted, hash-consed operators (op).

Two values whose terms are the same node are equal for all inputs.  No input
is enumerated and no solver is involved; equality is identity of canonical
forms.  `Sampler` at the end constant-folds a term under one assignment; it is
only used to attach a witness to a mismatch.
"""
import sys
import struct
import hashlib

sys.setrecursionlimit(200000)

FALSE, TRUE = 0, 1


SHIFTS = ('fshl', 'shl', 'lshr', 'ashr')


class Budget(Exception):
    pass


class Ctx:
    def __init__(self, node_budget=3000000):
        # terms
        self.n = []
        self.tab = {}
        # bdd: node id -> (var, hi, lo); 0/1 terminals
        self.b = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
        self.btab = {}
        self.bmemo = {}
        self.vars = []
        self.vtab = {}
        self.itememo = {}
        self.budget = node_budget
        self.sliceMemo = {}

    # ------------------------------------------------------------------ BDD
    def var(self, key):
        i = self.vtab.get(key)
        if i is None:
            i = len(self.vars)
            self.vars.append(key)
            self.vtab[key] = i
        return self.bnode(i, TRUE, FALSE)

    def bnode(self, v, hi, lo):
        if hi == lo:
            return hi
        k = (v, hi, lo)
        r = self.btab.get(k)
        if r is None:
            if len(self.b) > self.budget:
                raise Budget("bdd")
            r = len(self.b)
            self.b.append(k)
            self.btab[k] = r
        return r

    def bite(self, f, g, h):
        if f == TRUE:
            return g
        if f == FALSE:
            return h
        if g == h:
            return g
        if g == TRUE and h == FALSE:
            return f
        k = (f, g, h)
        r = self.bmemo.get(k)
        if r is not None:
            return r
        bf, bg, bh = self.b[f], self.b[g], self.b[h]
        v = min(bf[0], bg[0], bh[0])
        f1, f0 = (bf[1], bf[2]) if bf[0] == v else (f, f)
        g1, g0 = (bg[1], bg[2]) if bg[0] == v else (g, g)
        h1, h0 = (bh[1], bh[2]) if bh[0] == v else (h, h)
        r = self.bnode(v, self.bite(f1, g1, h1), self.bite(f0, g0, h0))
        self.bmemo[k] = r
        return r

    def AND(self, a, b):
        return self.bite(a, b, FALSE)

    def OR(self, a, b):
        return self.bite(a, TRUE, b)

    def NOT(self, a):
        return self.bite(a, FALSE, TRUE)

    def XOR(self, a, b):
        return self.bite(a, self.NOT(b), b)

    def ALL(self, xs):
        r = TRUE
        for x in reversed(list(xs)):
            r = self.AND(x, r)
        return r

    def ANY(self, xs):
        r = FALSE
        for x in reversed(list(xs)):
            r = self.OR(x, r)
        return r

    def restrict(self, f, c):
        """a (simpler) function that agrees with f wherever c holds"""
        if f < 2 or c == TRUE or c == FALSE:
            return f
        if f == c:
            return TRUE
        k = ('r', f, c)
        r = self.bmemo.get(k)
        if r is None:
            v, h, l = self.b[f]
            cv, ch, cl = self.b[c]
            if cv < v:
                r = self.restrict(f, self.OR(ch, cl))
            elif cv > v:
                r = self.bnode(v, self.restrict(h, c), self.restrict(l, c))
            elif ch == FALSE:
                r = self.restrict(l, cl)
            elif cl == FALSE:
                r = self.restrict(h, ch)
            else:
                r = self.bnode(v, self.restrict(h, ch), self.restrict(l, cl))
            self.bmemo[k] = r
        return r

    def rel(self, conds):
        """path conditions for a chain ite(c_n, x_n, ... ite(c_1, x_1, x_0)): each simplified by knowing that one of
        the paths up to its own is taken"""
        out = []
        any_ = FALSE
        for x in conds:
            any_ = self.OR(any_, x)
            out.append(self.restrict(x, any_))
        return out

    def support(self, f):
        seen, st, out = set(), [f], set()
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, hi, lo = self.b[x]
            out.add(v)
            st.append(hi)
            st.append(lo)
        return out

    # ---------------------------------------------------------------- terms
    def mk(self, *t):
        i = self.tab.get(t)
        if i is None:
            if len(self.n) > self.budget:
                raise Budget("terms")
            i = len(self.n)
            self.n.append(t)
            self.tab[t] = i
        return i

    def w(self, t):
        return self.n[t][1]

    def const(self, w, v):
        return self.mk('c', w, v & ((1 << w) - 1))

    def isc(self, t):
        n = self.n[t]
        return n[2] if n[0] == 'c' else None

    def v(self, w, name):
        if w == 1:
            return self.fill(1, self.var(('in', name)))
        return self.mk('v', w, name)

    def fill(self, w, b):
        if b == FALSE:
            return self.const(w, 0)
        if b == TRUE:
            return self.const(w, -1)
        return self.mk('fill', w, b)

    def boolterm(self, b):
        return self.fill(1, b)

    def tobool(self, t):
        n = self.n[t]
        assert n[1] == 1, n
        if n[0] == 'c':
            return n[2]
        if n[0] == 'fill':
            return n[2]
        if n[0] == 'ite':
            return self.bite(self.bnode(n[2], 1, 0), self.tobool(n[3]), self.tobool(n[4]))
        raise AssertionError(n)

    # slices ------------------------------------------------------------
    def bit(self, t, i):
        """boolean of bit i of t"""
        return self.tobool(self.slice(t, i, 1))

    def slice(self, t, lo, w):
        n = self.n[t]
        if lo == 0 and w == n[1]:
            return t
        k = (t, lo, w)
        r = self.sliceMemo.get(k)
        if r is None:
            r = self._slice(t, lo, w)
            self.sliceMemo[k] = r
        return r

    def _slice(self, t, lo, w):
        n = self.n[t]
        assert lo >= 0 and w > 0 and lo + w <= n[1], (n, lo, w)
        op = n[0]
        if op == 'c':
            return self.const(w, n[2] >> lo)
        if op == 'fill':
            return self.fill(w, n[2])
        if op == 'cat':
            parts = []
            pos = 0
            for p in n[2]:
                pw = self.n[p][1]
                a, b = max(lo, pos), min(lo + w, pos + pw)
                if a < b:
                    parts.append(self.slice(p, a - pos, b - a))
                pos += pw
            return self.cat(parts)
        if op == 'ext':
            return self.slice(n[2], n[3] + lo, w)
        if op == 'ite':
            return self.mkite(n[2], self.slice(n[3], lo, w), self.slice(n[4], lo, w))
        if op == 'bw':
            return self.bwmap(n[2], lambda x: self.slice(x, lo, w), w)
        if op == 'poly' and lo == 0:
            # low bits of a polynomial are the polynomial of low bits
            r = self.const(w, n[2])
            for coef, mono in n[3]:
                m = self.const(w, coef)
                for a in mono:
                    m = self.mul(m, self.slice(a, 0, w))
                r = self.add(r, m)
            return r
        if op == 'poly' and len(n[3]) == 1 and n[3][0][0] == 1 and len(n[3][0][1]) == 1 and n[2]:
            # (x + const): split at lo, the carry out of the low part is a boolean
            x = n[3][0][1][0]
            cl = n[2] & ((1 << lo) - 1)
            hi = self.add(self.slice(x, lo, n[1] - lo), self.const(n[1] - lo, n[2] >> lo))
            if cl:
                xl = self.slice(x, 0, lo)
                free = [p for p in (self.n[xl][2] if self.n[xl][0] == 'cat' else (xl,)) if self.isc(p) is None]
                if sum(self.n[p][1] for p in free) <= 12:
                    carry = self.NOT(self.ultc(xl, (1 << lo) - cl))
                    up = self.add(hi, self.const(n[1] - lo, 1))
                    return self.ite(carry, self.slice(up, 0, w), self.slice(hi, 0, w))
            else:
                return self.slice(hi, 0, w)
        if op == 'poly':
            z = lo
            for coef, mono in n[3]:
                if len(mono) == 1:
                    na = self.n[mono[0]]
                    lz = self.n[na[2][0]][1] if na[0] == 'cat' and self.isc(na[2][0]) == 0 else 0
                    z = min(z, lz)
                else:
                    z = 0
            if n[2]:
                z = min(z, (n[2] & -n[2]).bit_length() - 1)
            if z:
                # every summand is a multiple of 2^z
                k = n[1] - z
                r = self.const(k, n[2] >> z)
                for coef, mono in n[3]:
                    r = self.add(r, self.mul(self.const(k, coef), self.slice(mono[0], z, k)))
                return self.slice(r, lo - z, w)
            r = self._smallpoly(t, n)
            if r is not None:
                return self.slice(r, lo, w)
            if len(n[3]) == 1 and n[3][0][0] == (1 << n[1]) - 1 and len(n[3][0][1]) == 1:
                # k - x = ~x + (k + 1), for x of few unknown bits
                x = n[3][0][1][0]
                nx = self.n[x]
                if nx[0] == 'cat' and sum(self.n[p][1] for p in nx[2] if self.isc(p) is None) <= 8:
                    xl = self.not_(self.slice(x, 0, lo))
                    cl = (n[2] + 1) & ((1 << lo) - 1)
                    hi = self.add(self.not_(self.slice(x, lo, n[1] - lo)), self.const(n[1] - lo, (n[2] + 1) >> lo))
                    if self.isc(hi) is not None:
                        carry = self.NOT(self.ultc(xl, (1 << lo) - cl)) if cl else FALSE
                        up = self.add(hi, self.const(n[1] - lo, 1))
                        return self.ite(carry, self.slice(up, 0, w), self.slice(hi, 0, w))
        if w == 1:
            return self.fill(1, self.var(('bit', t, lo)))
        return self.mk('ext', w, t, lo)

    def _smallpoly(self, t, n):
        """a polynomial over at most 4 unknown bits: tabulate it as a choice of constants"""
        bits = []
        for coef, mono in n[3]:
            for a in mono:
                na = self.n[a]
                for p in (na[2] if na[0] == 'cat' else (a,)):
                    if self.isc(p) is None:
                        if self.n[p][1] > 4 or self.n[p][0] not in ('v', 'ext', 'op', 'fill'):
                            return None
                        for i in range(1 if self.n[p][0] == 'fill' else self.n[p][1]):
                            b = self.bit(p, i)
                            if b not in bits:
                                bits.append(b)
                        if len(bits) > 4:
                            return None

        def val(a, env):
            na = self.n[a]
            if na[0] == 'c':
                return na[2]
            if na[0] == 'cat':
                v = s = 0
                for p in na[2]:
                    v |= val(p, env) << s
                    s += self.n[p][1]
                return v
            if na[0] == 'fill':
                return (1 << na[1]) - 1 if env[na[2]] else 0
            v = 0
            for i in range(na[1]):
                v |= env[self.bit(a, i)] << i
            return v

        def go(i, env):
            if i == len(bits):
                r = n[2]
                for coef, mono in n[3]:
                    for a in mono:
                        coef *= val(a, env)
                    r += coef
                return self.const(n[1], r)
            h = go(i + 1, env | {bits[i]: 1})
            l = go(i + 1, env | {bits[i]: 0})
            return self.ite(bits[i], h, l)
        return go(0, {})

    def as_ext(self, t):
        """(base, lo, w) if t is a slice of an atomic base"""
        n = self.n[t]
        if n[0] == 'ext':
            return n[2], n[3], n[1]
        if n[0] == 'fill' and n[1] == 1:
            v, hi, lo = self.b[n[2]]
            if hi == 1 and lo == 0:
                k = self.vars[v]
                if k[0] == 'bit':
                    return k[1], k[2], 1
            return None
        if n[0] in ('v', 'op', 'poly'):
            return t, 0, n[1]
        return None

    def cat(self, parts):
        """parts low to high"""
        flat = []
        for p in parts:
            if self.n[p][0] == 'cat':
                flat.extend(self.n[p][2])
            else:
                flat.append(p)
        out = []
        for p in flat:
            while out:
                q = self.merge2(out[-1], p)
                if q is None:
                    break
                out.pop()
                p = q
            if self.n[p][0] == 'cat':
                out.extend(self.n[p][2])
            else:
                out.append(p)
        if len(out) == 1:
            return out[0]
        w = sum(self.n[p][1] for p in out)
        return self.mk('cat', w, tuple(out))

    def merge2(self, a, b):
        """a is low, b is high; one term for both or None"""
        na, nb = self.n[a], self.n[b]
        if na[0] == 'c' and nb[0] == 'c':
            return self.const(na[1] + nb[1], na[2] | nb[2] << na[1])
        if na[0] == 'fill' and nb[0] == 'fill' and na[2] == nb[2]:
            return self.mk('fill', na[1] + nb[1], na[2])
        ea = self.as_ext(a)
        if ea is not None:
            eb = self.as_ext(b)
            if eb is not None and ea[0] == eb[0] and ea[1] + ea[2] == eb[1]:
                base, lo, w = ea[0], ea[1], ea[2] + eb[2]
                if lo == 0 and w == self.n[base][1]:
                    return base
                return self.mk('ext', w, base, lo)
            return None
        if na[0] == 'bw' and nb[0] == 'bw':
            return self.merge_bw(na, nb)
        if na[0] == 'ite' and nb[0] == 'ite' and na[2] == nb[2]:
            # merge only if both branches merge completely
            h = self.merge2(na[3], nb[3])
            if h is None:
                return None
            l = self.merge2(na[4], nb[4])
            if l is None:
                return None
            return self.mkite(na[2], h, l)
        return None

    def merge_bw(self, na, nb):
        memo = {}

        def go(x, y):
            if x < 2 or y < 2:
                if x == y:
                    return x
                raise KeyError
            k = (x, y)
            if k in memo:
                return memo[k]
            vx, hx, lx = self.b[x]
            vy, hy, ly = self.b[y]
            tx, ty = self.vars[vx][1], self.vars[vy][1]
            m = self.merge2(tx, ty)
            if m is None or self.n[m][0] in ('cat', 'bw', 'fill', 'c', 'ite'):
                raise KeyError
            r = self.bite(self.var(('bw', m)), go(hx, hy), go(lx, ly))
            memo[k] = r
            return r
        if len(self.support(na[2])) > 8:
            return None
        try:
            f = go(na[2], nb[2])
        except KeyError:
            return None
        return self.bwterm(f, na[1] + nb[1])

    def zext(self, t, w):
        k = self.n[t][1]
        return t if w == k else self.cat([t, self.const(w - k, 0)])

    def sext(self, t, w):
        k = self.n[t][1]
        if w == k:
            return t
        return self.cat([t, self.fill(w - k, self.bit(t, k - 1))])

    def cuts(self, *ts):
        s = set()
        for t in ts:
            n = self.n[t]
            if n[0] == 'cat':
                pos = 0
                for p in n[2]:
                    pos += self.n[p][1]
                    s.add(pos)
                    if self.n[p][0] == 'c':
                        self.constcuts(p, pos - self.n[p][1], s)
            elif n[0] == 'c':
                self.constcuts(t, 0, s)
            s.add(n[1])
        return sorted(s)

    def constcuts(self, p, base, s):
        n = self.n[p]
        v, w = n[2], n[1]
        if v == 0 or v == (1 << w) - 1:
            return
        x = v ^ (v >> 1)
        for i in range(w - 1):
            if x >> i & 1:
                s.add(base + i + 1)

    # bitwise -----------------------------------------------------------
    def bwbool(self, t):
        """boolean function (over bw atoms / ordinary atoms) of a uniform slice"""
        n = self.n[t]
        if n[0] == 'c':
            return TRUE if n[2] else FALSE
        if n[0] in ('fill', 'bw'):
            return n[2]
        return self.var(('bw', t))

    def bwterm(self, f, w):
        if f < 2:
            return self.fill(w, f)
        v, hi, lo = self.b[f]
        if hi == 1 and lo == 0:
            k = self.vars[v]
            if k[0] == 'bw':
                return k[1]
        if w == 1 or not self.has_bw(f):
            return self.mk('fill', w, f)
        return self.mk('bw', w, f)

    def has_bw(self, f):
        return any(self.vars[v][0] == 'bw' for v in self.support(f))

    def bwmap(self, f, fn, w):
        memo = {}

        def go(x):
            if x < 2:
                return x
            if x in memo:
                return memo[x]
            v, hi, lo = self.b[x]
            k = self.vars[v]
            c = self.var(k) if k[0] != 'bw' else None
            if c is None:
                t = fn(k[1])
                c = ('t', t)
            r = (c, go(hi), go(lo))
            memo[x] = r
            return r
        tree = go(f)
        # gather sliced atoms; if any of them is not uniform re-run through bitwise()
        memo2 = {}

        def build(x):
            if isinstance(x, int):
                return self.fill(w, x)
            r = memo2.get(id(x))
            if r is None:
                c, hi, lo = x
                h, l = build(hi), build(lo)
                if isinstance(c, tuple):
                    r = self.bitselect(c[1], h, l)
                else:
                    r = self.bitselect(self.fill(w, c), h, l)
                memo2[id(x)] = r
            return r
        return build(tree)

    def bitselect(self, s, a, b):
        """(s & a) | (~s & b) bit by bit"""
        return self.bitwise(lambda x, y, z: self.bite(x, y, z), s, a, b)

    def bitwise(self, fn, *ts):
        w = self.n[ts[0]][1]
        cs = self.cuts(*ts)
        out = []
        pos = 0
        for c in cs:
            k = c - pos
            segs = [self.slice(t, pos, k) for t in ts]
            done = self._bitseg(fn, segs, k)
            out.append(done)
            pos = c
        return self.cat(out) if len(out) > 1 else out[0]

    def _bitseg(self, fn, segs, k):
        # lift over ite segments when they are few
        for i, s in enumerate(segs):
            if self.n[s][0] == 'ite':
                others = [self.n[x][0] for j, x in enumerate(segs) if j != i]
                if all(o in ('c', 'fill') for o in others) or len(segs) == 1:
                    return self.lift(lambda x: self._bitseg(fn, segs[:i] + [x] + segs[i + 1:], k), s)
        if k > 1 and any(self.n[s][0] == 'cat' for s in segs):
            return self.bitwise(fn, *segs)
        f = fn(*[self.bwbool(s) if k > 1 else self.tobool(s) for s in segs])
        return self.bwterm(f, k)

    def and_(self, a, b):
        return self.bitwise(self.AND, a, b)

    def or_(self, a, b):
        na, nb = self.n[a], self.n[b]
        if na[0] == nb[0] == 'op' and {na[2], nb[2]} == {'shl', 'lshr'} and na[3] == nb[3]:
            # x << s | x >> (w - s), both counts reduced modulo w: a rotation
            w = na[1]
            lg = w.bit_length() - 1
            l, r = (na[4], nb[4]) if na[2] == 'shl' else (nb[4], na[4])
            if w == 1 << lg and all(self.isc(self.slice(s, lg, w - lg)) == 0 for s in (l, r)):
                if self.isc(self.add(self.slice(l, 0, lg), self.slice(r, 0, lg))) == 0:
                    return self.op('fshl', w, na[3], na[3], l)
        return self.bitwise(self.OR, a, b)

    def xor(self, a, b):
        return self.bitwise(self.XOR, a, b)

    def not_(self, a):
        return self.xor(a, self.const(self.n[a][1], -1))

    # ite ---------------------------------------------------------------
    def mkite(self, v, hi, lo):
        if hi == lo:
            return hi
        nh, nl = self.n[hi], self.n[lo]
        w = nh[1]
        if nh[0] in ('c', 'fill', 'cat') and nl[0] in ('c', 'fill', 'cat') or w == 1:
            return self.iteseg(v, hi, lo)
        if nh[0] == 'cat' or nl[0] == 'cat':
            return self.iteseg(v, hi, lo)
        if nl[0] == 'ite':
            r = self.as_minmax(v, hi, nl)
            if r is not None:
                return r
        return self.mk('ite', w, v, hi, lo)

    def as_minmax(self, v, hi, nl):
        """a == b ? a : a < b ? a : b  ->  min(a, b)"""
        k = self.vars[v]
        if k[0] != 'eq':
            return None
        k2 = self.vars[nl[2]]
        if k2[0] not in ('slt', 'ult') or {k2[1], k2[2]} != {k[1], k[2]} or hi not in k[1:3]:
            return None
        if (nl[3], nl[4]) == (k2[1], k2[2]):
            nm = k2[0][0] + 'min'
        elif (nl[4], nl[3]) == (k2[1], k2[2]):
            nm = k2[0][0] + 'max'
        else:
            return None
        return self.nary(nm, nl[1], [k[1], k[2]])

    def nary(self, name, w, xs):
        s = set()
        for x in xs:
            n = self.n[x]
            if n[0] == 'op' and n[2] == name:
                s |= set(n[3:])
            else:
                s.add(x)
        if len(s) == 1:
            return s.pop()
        signed = name[0] == 's'
        mx = name.endswith('max')
        cs = [x for x in s if self.isc(x) is not None]
        if len(cs) > 1:
            key = lambda x: (lambda v: v - (1 << w) if signed and v >> (w - 1) else v)(self.isc(x))
            k = max(cs, key=key) if mx else min(cs, key=key)
            s -= set(cs)
            s.add(k)
            if len(s) == 1:
                return s.pop()
        if all(self.n[x][0] in ('fill', 'c') and (self.n[x][0] == 'fill' or self.n[x][2] in (0, (1 << w) - 1)) for x in s):
            bs = [self.n[x][2] if self.n[x][0] == 'fill' else (1 if self.n[x][2] else 0) for x in s]
            any_ = (mx and not signed) or (not mx and signed)
            return self.fill(w, self.ANY(bs) if any_ else self.ALL(bs))
        return self.op(name, w, *sorted(s))

    def iteseg(self, v, hi, lo):
        c = self.bnode(v, 1, 0)
        cs = self.cuts(hi, lo)
        out = []
        pos = 0
        for e in cs:
            k = e - pos
            h, l = self.slice(hi, pos, k), self.slice(lo, pos, k)
            pos = e
            if h == l:
                out.append(h)
                continue
            nh, nl = self.n[h], self.n[l]
            if k == 1:
                out.append(self.fill(1, self.bite(c, self.tobool(h), self.tobool(l))))
            elif nh[0] in ('c', 'fill') and nl[0] in ('c', 'fill'):
                bh = n_bool(nh)
                bl = n_bool(nl)
                out.append(self.fill(k, self.bite(c, bh, bl)))
            else:
                out.append(self.mk('ite', k, v, h, l))
        return self.cat(out) if len(out) > 1 else out[0]

    def topvar(self, t):
        n = self.n[t]
        return n[2] if n[0] == 'ite' else 1 << 60

    def ite(self, c, t, e):
        if c == TRUE:
            return t
        if c == FALSE:
            return e
        if t == e:
            return t
        nt, ne = self.n[t], self.n[e]
        assert nt[1] == ne[1]
        if nt[1] == 1:
            return self.fill(1, self.bite(c, self.tobool(t), self.tobool(e)))
        if ne[0] == 'op' and ne[2] in SHIFTS and t == ne[3] and c == self.eq(ne[-1], self.const(nt[1], 0)):
            return e            # a shift or rotation by zero, told apart
        if nt[0] == 'op' and nt[2] in SHIFTS and e == nt[3] and self.NOT(c) == self.eq(nt[-1], self.const(nt[1], 0)):
            return t
        if nt[0] in ('c', 'fill', 'cat') or ne[0] in ('c', 'fill', 'cat'):
            cs = self.cuts(t, e)
            if len(cs) > 1:
                out = []
                pos = 0
                for x in cs:
                    out.append(self.ite(c, self.slice(t, pos, x - pos), self.slice(e, pos, x - pos)))
                    pos = x
                return self.cat(out)
            if nt[0] in ('c', 'fill') and ne[0] in ('c', 'fill'):
                return self.fill(nt[1], self.bite(c, n_bool(nt), n_bool(ne)))
        k = (c, t, e)
        r = self.itememo.get(k)
        if r is not None:
            return r
        bc = self.b[c]
        v = min(bc[0], self.topvar(t), self.topvar(e))
        c1, c0 = (bc[1], bc[2]) if bc[0] == v else (c, c)
        t1, t0 = (nt[3], nt[4]) if nt[0] == 'ite' and nt[2] == v else (t, t)
        e1, e0 = (ne[3], ne[4]) if ne[0] == 'ite' and ne[2] == v else (e, e)
        r = self.mkite(v, self.ite(c1, t1, e1), self.ite(c0, t0, e0))
        self.itememo[k] = r
        return r

    def leaves(self, t, limit=300):
        seen = set()
        out = []
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            n = self.n[x]
            if n[0] == 'ite':
                st.append(n[3])
                st.append(n[4])
            else:
                out.append(x)
            if len(seen) > limit:
                return None
        return out

    def lift(self, fn, t):
        memo = {}

        def go(x):
            r = memo.get(x)
            if r is None:
                n = self.n[x]
                if n[0] == 'ite':
                    r = self.ite(self.bnode(n[2], 1, 0), go(n[3]), go(n[4]))
                else:
                    r = fn(x)
                memo[x] = r
            return r
        return go(t)

    def liftb(self, fn, t):
        """fn: leaf term -> bdd"""
        memo = {}

        def go(x):
            r = memo.get(x)
            if r is None:
                n = self.n[x]
                if n[0] == 'ite':
                    r = self.bite(self.bnode(n[2], 1, 0), go(n[3]), go(n[4]))
                else:
                    r = fn(x)
                memo[x] = r
            return r
        return go(t)

    def lift2(self, fn, a, b, limit=64):
        return self._apply(fn, a, b, limit, self.ite)

    def liftb2(self, fn, a, b, limit=64):
        return self._apply(fn, a, b, limit, self.bite)

    def _apply(self, fn, a, b, limit, join):
        """fn over two choices, case by case; None if neither is a choice or there are too many cases"""
        if self.n[a][0] != 'ite' and self.n[b][0] != 'ite':
            return None
        memo = {}

        def pairs(x, y):
            # count the cases before computing any
            st = [(x, y)]
            seen = set()
            k = 0
            while st:
                q = st.pop()
                if q in seen:
                    continue
                seen.add(q)
                v = min(self.topvar(q[0]), self.topvar(q[1]))
                if v == 1 << 60:
                    k += 1
                    if k > 4 * limit:
                        return False
                    continue
                if len(seen) > 16 * limit:
                    return False
                nx, ny = self.n[q[0]], self.n[q[1]]
                x1, x0 = (nx[3], nx[4]) if self.topvar(q[0]) == v else (q[0], q[0])
                y1, y0 = (ny[3], ny[4]) if self.topvar(q[1]) == v else (q[1], q[1])
                st.append((x1, y1))
                st.append((x0, y0))
            return True
        if not pairs(a, b):
            return None

        def go(x, y):
            r = memo.get((x, y))
            if r is None:
                v = min(self.topvar(x), self.topvar(y))
                if v == 1 << 60:
                    r = fn(x, y)
                else:
                    nx, ny = self.n[x], self.n[y]
                    x1, x0 = (nx[3], nx[4]) if self.topvar(x) == v else (x, x)
                    y1, y0 = (ny[3], ny[4]) if self.topvar(y) == v else (y, y)
                    r = join(self.bnode(v, 1, 0), go(x1, y1), go(x0, y0))
                memo[x, y] = r
            return r
        return go(a, b)

    # polynomials -------------------------------------------------------
    def topoly(self, t):
        """(const, {mono: coef}) modulo 2^w"""
        n = self.n[t]
        w = n[1]
        if n[0] == 'c':
            return n[2], {}
        if n[0] == 'poly':
            return n[2], dict((m, c) for c, m in n[3])
        if n[0] == 'cat' and len(n[2]) == 2:
            lo, hi = n[2]
            nl = self.n[lo]
            if nl[0] == 'c' and nl[2] == 0:
                k = nl[1]
                e = self.as_ext(hi)
                if e is not None and e[1] == 0 and self.n[e[0]][1] == w:
                    c, m = self.topoly(e[0])
                    mod = (1 << w) - 1
                    return (c << k) & mod, {mm: (cc << k) & mod for mm, cc in m.items() if (cc << k) & mod}
                if e is not None and e[1] == 0 and e[2] == self.n[e[0]][1]:
                    # shl (zext x), k with no overlap: keep as atom
                    pass
        if n[0] == 'cat':
            h = self.n[n[2][-1]]
            if h[0] == 'poly' and h[2]:
                # {x + k, low} == {x, low} + (k << |low|): the top part wraps with the whole
                k = w - h[1]
                base = self.cat(list(n[2][:-1]) + [self.frompoly(h[1], 0, dict((m, c) for c, m in h[3]))])
                c, m = self.topoly(base)
                return (c + (h[2] << k)) & ((1 << w) - 1), m
        if n[0] == 'fill' and w > 1:
            # all bits equal b: -zext(b)
            return 0, {(self.zext(self.boolterm(n[2]), w),): (1 << w) - 1}
        if n[0] == 'bw' or (n[0] == 'cat'):
            # not x  ==  -x - 1
            neg = self._as_not(t)
            if neg is not None:
                c, m = self.topoly(neg)
                mod = (1 << w) - 1
                return (-c - 1) & mod, {mm: (-cc) & mod for mm, cc in m.items()}
        if n[0] == 'cat':
            # zero-extended pieces at distinct positions: keep as one atom
            pass
        return 0, {(t,): 1}

    def _as_not(self, t):
        n = self.n[t]
        if n[0] == 'bw':
            v, hi, lo = self.b[n[2]]
            if hi == 0 and lo == 1 and self.vars[v][0] == 'bw':
                return self.vars[v][1]
        return None

    def frompoly(self, w, c, m):
        mod = (1 << w) - 1
        c &= mod
        m = {k: v & mod for k, v in m.items() if v & mod}
        if not m:
            return self.const(w, c)
        if len(m) == 1:
            (mono, coef), = m.items()
            if c == 0 and coef == 1 and len(mono) == 1:
                return mono[0]
            if c == mod and coef == mod and len(mono) == 1:
                return self.not_(mono[0])
            if len(mono) == 1:
                na = self.n[mono[0]]
                if na[0] == 'cat' and len(na[2]) == 2 and self.n[na[2][0]][:2] == ('fill', 1) and self.isc(na[2][1]) == 0:
                    # a multiple of one bit: a choice of two constants
                    return self.ite(self.n[na[2][0]][2], self.const(w, c + coef), self.const(w, c))
            if c == 0 and coef & (coef - 1) == 0 and coef > 1:
                k = coef.bit_length() - 1
                base = mono[0] if len(mono) == 1 else self.mk('poly', w, 0, ((1, mono),))
                return self.cat([self.const(k, 0), self.slice(base, 0, w - k)])
        if len(m) == 2 and c == 0 and w > 1 and set(m.values()) == {1, mod}:
            # x - y of two bits (three-way comparison of booleans)
            bs = {}
            for mono, coef in m.items():
                na = self.n[mono[0]]
                if len(mono) == 1 and na[0] == 'cat' and len(na[2]) == 2 and self.n[na[2][0]][:2] == ('fill', 1) and \
                        self.isc(na[2][1]) == 0:
                    bs[coef] = self.n[na[2][0]][2]
            if len(bs) == 2:
                x, y = bs[1], bs[mod]
                neg = self.AND(y, self.NOT(x))
                return self.cat([self.fill(1, self.XOR(x, y)), self.fill(w - 1, neg)])
        items = tuple(sorted(((v, k) for k, v in m.items()), key=lambda x: x[1]))
        return self.mk('poly', w, c, items)

    def add(self, a, b):
        w = self.n[a][1]
        if w == 1:
            return self.xor(a, b)
        ca, cb = self.isc(a), self.isc(b)
        if ca == 0:
            return b
        if cb == 0:
            return a
        r = self.lift2(self.add, a, b, 24)
        if r is not None:
            return r
        if ca is None or cb is None:
            d = self.disjoint_or(a, b)
            if d is not None:
                return d
        r = self.catlift(self.add, a, b)
        if r is not None:
            return r
        c1, m1 = self.topoly(a)
        c2, m2 = self.topoly(b)
        m = dict(m1)
        for k, v in m2.items():
            m[k] = m.get(k, 0) + v
        r = self._cancel(w, c1 + c2, m)
        if r is not None:
            return r
        return self.frompoly(w, c1 + c2, m)

    def _cancel(self, w, c, m):
        """k*{A,X,B} - k*{C,X,D}: the common piece X at the same place cancels"""
        mod = (1 << w) - 1
        cats = [k for k, v in m.items() if len(k) == 1 and v & mod and self.n[k[0]][0] == 'cat']
        if not cats:
            return None
        for i, k1 in enumerate(cats):
            for k2 in m:
                if k2 == k1 or len(k2) != 1 or (m[k1] + m[k2]) & mod:
                    continue
                x, y = k1[0], k2[0]
                px, py, pos, hit = [], [], 0, False
                for cut in self.cuts(x, y):
                    a, b = self.slice(x, pos, cut - pos), self.slice(y, pos, cut - pos)
                    if a == b and self.isc(a) != 0:
                        hit = True
                        a = b = self.const(cut - pos, 0)
                    px.append(a)
                    py.append(b)
                    pos = cut
                if hit:
                    rest = {k: v for k, v in m.items() if k not in (k1, k2)}
                    r = self.frompoly(w, c, rest)
                    for t, v in ((self.cat(px), m[k1]), (self.cat(py), m[k2])):
                        r = self.add(r, self.mul(t, self.const(w, v)))
                    return r
        return None

    def catlift(self, fn, a, b):
        """lift fn over a choice that is one part of a concatenation"""
        for t, flip in ((a, 0), (b, 1)):
            n = self.n[t]
            if n[0] != 'cat':
                continue
            for i, p in enumerate(n[2]):
                if self.n[p][0] == 'ite':
                    lv = self.leaves(p, 24)
                    if lv is None:
                        continue

                    def g(x):
                        y = self.cat(list(n[2][:i]) + [x] + list(n[2][i + 1:]))
                        return fn(a, y) if flip else fn(y, b)
                    return self.lift(g, p)
        return None

    def disjoint_or(self, a, b):
        """a + b with no common set bits: plain wiring"""
        na, nb = self.n[a], self.n[b]
        if not (na[0] in ('cat', 'c') and nb[0] in ('cat', 'c')):
            return None
        out = []
        pos = 0
        for c in self.cuts(a, b):
            x, y = self.slice(a, pos, c - pos), self.slice(b, pos, c - pos)
            if self.isc(x) == 0:
                out.append(y)
            elif self.isc(y) == 0:
                out.append(x)
            else:
                return None
            pos = c
        return self.cat(out)

    def neg(self, a):
        return self.mul(a, self.const(self.n[a][1], -1))

    def sub(self, a, b):
        if a == b:
            return self.const(self.n[a][1], 0)
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        w = self.n[a][1]
        if w == 1:
            return self.and_(a, b)
        ca, cb = self.isc(a), self.isc(b)
        if ca == 0 or cb == 0:
            return self.const(w, 0)
        if ca == 1:
            return b
        if cb == 1:
            return a
        r = self.lift2(self.mul, a, b, 24)
        if r is not None:
            return r
        c1, m1 = self.topoly(a)
        c2, m2 = self.topoly(b)
        if (len(m1) + 1) * (len(m2) + 1) > 400:
            return self.opc('mul', w, a, b)
        m = {}
        for k, v in m1.items():
            if c2:
                m[k] = m.get(k, 0) + v * c2
            for k2, v2 in m2.items():
                kk = tuple(sorted(k + k2))
                m[kk] = m.get(kk, 0) + v * v2
        for k2, v2 in m2.items():
            if c1:
                m[k2] = m.get(k2, 0) + v2 * c1
        return self.frompoly(w, c1 * c2, m)

    # comparisons -------------------------------------------------------
    def eq(self, a, b):
        if a == b:
            return TRUE
        na, nb = self.n[a], self.n[b]
        if na[0] == 'c' and nb[0] == 'c':
            return FALSE
        r = self.liftb2(self.eq, a, b)
        if r is not None:
            return r
        if na[1] == 1:
            return self.NOT(self.XOR(self.tobool(a), self.tobool(b)))
        if na[0] == 'c':
            a, b, na, nb = b, a, nb, na
        if nb[0] == 'c':
            if na[0] == 'poly':
                # x + k == c  <->  x == c - k   (x single atom with coef +-1)
                if len(na[3]) == 1 and na[2] != 0:
                    base = self.frompoly(na[1], 0, {na[3][0][1]: na[3][0][0]})
                    return self.eq(base, self.const(na[1], nb[2] - na[2]))
                if len(na[3]) == 1 and na[3][0][0] == (1 << na[1]) - 1:
                    base = self.frompoly(na[1], 0, {na[3][0][1]: 1})
                    return self.eq(base, self.const(na[1], -nb[2]))
                if len(na[3]) == 2 and na[2] == 0 and nb[2] == 0:
                    (c1, m1), (c2, m2) = na[3]
                    if (c1 + c2) & ((1 << na[1]) - 1) == 0 and 1 in (c1, c2):
                        return self.eq(self.frompoly(na[1], 0, {m1: 1}), self.frompoly(na[1], 0, {m2: 1}))
            bs = self.bitsum(a)
            if bs is not None:
                return self.countbits(bs, lambda x: x == nb[2])
            # constant: bit by bit (linear diagram)
            return self.ALL(self._eqparts(a, nb[2]))
        if na[0] in ('cat', 'fill') or nb[0] in ('cat', 'fill'):
            cs = self.cuts(a, b)
            if len(cs) > 1:
                pos = 0
                ps = []
                for c in cs:
                    ps.append(self.eq(self.slice(a, pos, c - pos), self.slice(b, pos, c - pos)))
                    pos = c
                return self.ALL(ps)
            if na[0] == 'fill' and nb[0] == 'fill':
                return self.NOT(self.XOR(na[2], nb[2]))
            if na[0] == 'fill' or nb[0] == 'fill':
                if nb[0] != 'fill':
                    a, b, na, nb = b, a, nb, na
                return self.bite(nb[2], self.eq(a, self.const(na[1], -1)), self.eq(a, self.const(na[1], 0)))
        if na[0] == 'poly' or nb[0] == 'poly':
            d = self.sub(a, b)
            c = self.isc(d)
            if c is not None:
                return TRUE if c == 0 else FALSE
        if a > b:
            a, b = b, a
        return self.var(('eq', a, b))

    def bitsum(self, a):
        """a sum of constant multiples of single bits, as (width, constant, [(multiple, condition)])"""
        n = self.n[a]
        if n[0] == 'cat' and sum(self.n[p][0] == 'poly' for p in n[2]) == 1:
            # {0, sum, k}: the same sum times a power of two, plus k
            ps = list(n[2])
            if self.isc(ps[-1]) == 0:
                ps.pop()
            lo = self.isc(ps[0]) if len(ps) == 2 else 0 if len(ps) == 1 else None
            bs = None if lo is None else self.bitsum(ps[-1])
            if bs is None:
                return None
            z = self.n[ps[0]][1] if len(ps) == 2 else 0
            return bs[0] + z, (bs[1] << z) + lo, [(k << z, b) for k, b in bs[2]]
        if n[0] != 'poly' or not 2 <= len(n[3]) <= 64:
            return None
        out = []
        for k, mono in n[3]:
            na = self.n[mono[0]]
            if len(mono) != 1 or na[0] != 'cat' or len(na[2]) > 3:
                return None
            pos, b = 0, None
            for q in na[2]:
                if b is None and self.n[q][:2] == ('fill', 1):
                    b = self.n[q][2]
                elif self.isc(q) != 0:
                    return None
                elif b is None:
                    pos += self.n[q][1]
            if b is None:
                return None
            out.append((k << pos & (1 << n[1]) - 1, b))
        ks = {}
        for k, _ in out:
            ks[k] = ks.get(k, 1) + 1
        sums = 1
        for v in ks.values():
            sums *= v
        return (n[1], n[2], out) if sums <= 1024 else None

    def countbits(self, bs, f):
        """the condition that f holds of the sum (merging equal partial sums, so one diagram per sum)"""
        w, c, items = bs
        mod = (1 << w) - 1
        layers = [{c}]
        for k, _ in items:
            layers.append(set(x + d & mod for x in layers[-1] for d in (0, k)))
        cur = {x: TRUE if f(x) else FALSE for x in layers.pop()}
        for k, b in reversed(items):
            cur = {x: self.bite(b, cur[x + k & mod], cur[x]) for x in layers.pop()}
        return cur[c]

    def _eqparts(self, a, c):
        n = self.n[a]
        if n[0] == 'cat':
            out = []
            for p in n[2]:
                pw = self.n[p][1]
                out += self._eqparts(p, c & ((1 << pw) - 1))
                c >>= pw
            return out
        if n[0] == 'c':
            return [TRUE if n[2] == c else FALSE]
        if n[0] == 'fill':
            if c == 0:
                return [self.NOT(n[2])]
            if c == (1 << n[1]) - 1:
                return [n[2]]
            return [FALSE]
        if n[0] == 'ite':
            k = self.const(n[1], c)
            return [self.liftb(lambda x: self.eq(x, k), a)]
        out = []
        for i in range(n[1]):
            b = self.bit(a, i)
            out.append(b if c >> i & 1 else self.NOT(b))
        return out

    def ultc(self, a, c):
        """a < constant c, unsigned: linear diagram over bits"""
        w = self.n[a][1]
        if c == 0:
            return FALSE
        if c >= 1 << w:
            return TRUE
        n = self.n[a]
        if n[0] == 'ite':
            return self.liftb(lambda x: self.ultc(x, c), a)
        bs = self.bitsum(a)
        if bs is not None:
            return self.countbits(bs, lambda x: x < c)
        r = FALSE
        for i in range(w):
            b = self.bit(a, i)
            if c >> i & 1:
                r = self.bite(b, r, TRUE)
            else:
                r = self.bite(b, FALSE, r)
        return r

    def flipsign(self, a):
        w = self.n[a][1]
        return self.xor(a, self.const(w, 1 << (w - 1)))

    def ult(self, a, b):
        if a == b:
            return FALSE
        na, nb = self.n[a], self.n[b]
        w = na[1]
        if nb[0] == 'c':
            return self.ultc(a, nb[2])
        if na[0] == 'c':
            # c < b  <->  not (b < c+1)
            return self.NOT(self.ultc(b, na[2] + 1))
        if w == 1:
            return self.AND(self.NOT(self.tobool(a)), self.tobool(b))
        r = self.liftb2(self.ult, a, b)
        if r is not None:
            return r
        if na[0] == 'fill' and nb[0] == 'fill':
            return self.AND(self.NOT(na[2]), nb[2])
        # strip common high constants
        if na[0] == 'cat' and nb[0] == 'cat':
            ha, hb = na[2][-1], nb[2][-1]
            k = min(self.n[ha][1], self.n[hb][1])
            sa, sb = self.slice(a, w - k, k), self.slice(b, w - k, k)
            if k < w:
                hi = self.ult(sa, sb)
                heq = self.eq(sa, sb)
                return self.OR(hi, self.AND(heq, self.ult(self.slice(a, 0, w - k), self.slice(b, 0, w - k))))
        return self.cmpatom('ult', a, b)

    def cmpatom(self, k, a, b):
        e = self.eq(a, b)
        if a < b:
            return self.AND(self.NOT(e), self.var((k, a, b)))
        return self.AND(self.NOT(e), self.NOT(self.var((k, b, a))))

    def slt(self, a, b):
        if a == b:
            return FALSE
        na, nb = self.n[a], self.n[b]
        w = na[1]
        if na[0] == 'c' or nb[0] == 'c':
            return self.ult(self.flipsign(a), self.flipsign(b))
        if w == 1:
            return self.AND(self.tobool(a), self.NOT(self.tobool(b)))
        r = self.liftb2(self.slt, a, b)
        if r is not None:
            return r
        if na[0] == 'fill' and nb[0] == 'fill':
            return self.AND(na[2], self.NOT(nb[2]))
        sa, sb = self.slice(a, w - 1, 1), self.slice(b, w - 1, 1)
        if self.isc(sa) == 0 and self.isc(sb) == 0:
            return self.ult(self.slice(a, 0, w - 1), self.slice(b, 0, w - 1))
        # sign-extended operands
        ka, kb = self.signrun(a), self.signrun(b)
        k = min(ka, kb)
        if k > 0:
            return self.slt(self.slice(a, 0, w - k), self.slice(b, 0, w - k))
        if na[0] in ('cat', 'fill') or nb[0] in ('cat', 'fill'):
            return self.ult(self.flipsign(a), self.flipsign(b))
        return self.cmpatom('slt', a, b)

    def signrun(self, a):
        """number of redundant sign bits at the top"""
        n = self.n[a]
        if n[0] == 'fill' or n[0] == 'c' and n[2] in (0, (1 << n[1]) - 1):
            return n[1] - 1
        if n[0] != 'cat':
            return 0
        hi = n[2][-1]
        nh = self.n[hi]
        if nh[0] == 'fill':
            nxt = n[2][-2]
            kb = self.tobool(self.slice(nxt, self.n[nxt][1] - 1, 1))
            return nh[1] if kb == nh[2] else nh[1] - 1
        if nh[0] == 'c' and nh[2] == 0:
            return nh[1] - 1
        return 0

    # opaque operators --------------------------------------------------
    def op(self, name, w, *args):
        t = self.mk('op', w, name) if not args else self.mk('op', w, name, *args)
        if w == 1:
            return self.fill(1, self.var(('bit', t, 0)))
        if name in ('ctpop', 'ctlz', 'cttz') and w.bit_length() < w:
            k = w.bit_length()          # the count is at most w
            return self.cat([self.slice(t, 0, k), self.const(w - k, 0)])
        return t

    def opc(self, name, w, *args):
        return self.op(name, w, *sorted(args))

    # floats -------------------------------------------------------------
    def fbits(self, w):
        return {16: (5, 10), 32: (8, 23), 64: (11, 52), 80: (15, 64), 128: (15, 112)}[w]

    def isnan(self, t):
        w = self.w(t)
        e, m = self.fbits(w)
        if self.n[t][0] == 'ite':
            return self.liftb(self.isnan, t)
        if self.n[t][0] == 'op' and self.n[t][2] in ('uitofp', 'sitofp'):
            return FALSE
        ex = self.ALL([self.bit(t, i) for i in range(m, m + e)])
        mm = self.ANY([self.bit(t, i) for i in range(m)])
        return self.AND(ex, mm)

    def fcmp(self, pred, a, b):
        if pred == 'true':
            return TRUE
        if pred == 'false':
            return FALSE
        w = self.w(a)
        r = self.liftb2(lambda x, y: self.fcmp(pred, x, y), a, b, 16)
        if r is not None:
            return r
        if pred in ('uno', 'ord') or a == b:
            u = self.OR(self.isnan(a), self.isnan(b))
            if pred == 'uno':
                return u
            if pred == 'ord':
                return self.NOT(u)
            # a == b
            if pred in ('oeq', 'oge', 'ole'):
                return self.NOT(u)
            if pred in ('ueq', 'uge', 'ule'):
                return TRUE
            if pred in ('one', 'ogt', 'olt'):
                return FALSE
            return u
        base = pred[1:]
        if pred[0] == 'u':
            inv = {'eq': 'one', 'ne': 'oeq', 'lt': 'oge', 'le': 'ogt', 'gt': 'ole', 'ge': 'olt'}[base]
            return self.NOT(self.fcmp(inv, a, b))
        if base in ('gt', 'ge'):
            return self.fcmp('o' + {'gt': 'lt', 'ge': 'le'}[base], b, a)
        ca, cb = self.isc(a), self.isc(b)
        if ca is not None and cb is None and base in ('eq', 'ne'):
            a, b, ca, cb = b, a, cb, ca
        e, m = self.fbits(w)
        inf = ((1 << e) - 1) << m
        u = self.OR(self.isnan(a), self.isnan(b))
        if u == TRUE:
            return FALSE
        # infinities compare by bits
        if cb is not None and cb & ((1 << (w - 1)) - 1) == inf and base in ('eq', 'ne'):
            q = self.eq(a, b)
            return q if base == 'eq' else self.AND(self.NOT(u), self.NOT(q))
        if cb == inf and base == 'lt':
            return self.AND(self.NOT(u), self.NOT(self.eq(a, b)))
        if ca == inf | 1 << (w - 1) and base == 'lt':
            return self.AND(self.NOT(u), self.NOT(self.eq(a, b)))
        # zero compares by bits below the sign
        if cb is not None and cb & ((1 << (w - 1)) - 1) == 0 and base in ('eq', 'ne'):
            z = self.eq(self.slice(a, 0, w - 1), self.const(w - 1, 0))
            return z if base == 'eq' else self.AND(self.NOT(u), self.NOT(z))
        if cb is not None and cb & ((1 << (w - 1)) - 1) == 0 and base == 'lt':
            z = self.eq(self.slice(a, 0, w - 1), self.const(w - 1, 0))
            return self.AND(self.NOT(u), self.AND(self.NOT(z), self.bit(a, w - 1)))
        if ca is not None and ca & ((1 << (w - 1)) - 1) == 0 and base == 'lt':
            z = self.eq(self.slice(b, 0, w - 1), self.const(w - 1, 0))
            return self.AND(self.NOT(u), self.AND(self.NOT(z), self.NOT(self.bit(b, w - 1))))
        if ca is not None and cb is not None:
            x, y = ftoval(ca, w), ftoval(cb, w)
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y}[base])
        lo, hi = min(a, b), max(a, b)
        q = self.var(('feq', lo, hi))
        nu = self.NOT(u)
        if base == 'eq':
            return self.AND(nu, q)
        if base == 'ne':
            return self.AND(nu, self.NOT(q))
        l = self.var(('flt', lo, hi))
        if a != lo:
            l = self.NOT(l)
        if base == 'lt':
            return self.AND(nu, self.AND(self.NOT(q), l))
        return self.AND(nu, self.OR(q, l))

    # misc ---------------------------------------------------------------
    def pretty(self, t, depth=6):
        n = self.n[t]
        if n[0] == 'c':
            return '%#x:%d' % (n[2], n[1])
        if n[0] == 'v':
            return n[2]
        if depth == 0:
            return '..'
        p = lambda x: self.pretty(x, depth - 1)
        if n[0] == 'ext':
            return '%s[%d+:%d]' % (p(n[2]), n[3], n[1])
        if n[0] == 'cat':
            return '{' + ','.join(p(x) for x in reversed(n[2])) + '}'
        if n[0] == 'fill':
            return 'fill%d(%s)' % (n[1], self.bpretty(n[2], depth - 1))
        if n[0] == 'bw':
            return 'bw(%s)' % self.bpretty(n[2], depth - 1)
        if n[0] == 'ite':
            return 'ite(%s,%s,%s)' % (self.vpretty(n[2], depth - 1), p(n[3]), p(n[4]))
        if n[0] == 'poly':
            s = ['%d' % n[2]] if n[2] else []
            for c, m in n[3][:8]:
                cc = c - (1 << n[1]) if c >> (n[1] - 1) else c
                s.append(('%d*' % cc if cc != 1 else '') + '*'.join(p(x) for x in m[:8]))
            return '(' + ' + '.join(s) + ')'
        if n[0] == 'op':
            return '%s(%s)' % (n[2], ','.join(p(x) if isinstance(x, int) else str(x) for x in n[3:]))
        return str(n)

    def vpretty(self, v, depth):
        k = self.vars[v]
        if depth <= 0:
            return '..'
        if k[0] == 'bit':
            return '%s.%d' % (self.pretty(k[1], depth - 1), k[2])
        if k[0] == 'in':
            return str(k[1])
        if k[0] == 'bw':
            return self.pretty(k[1], depth - 1)
        return '%s(%s)' % (k[0], ','.join(self.pretty(x, depth - 1) if isinstance(x, int) else str(x) for x in k[1:]))

    def bpretty(self, f, depth=6):
        if f == TRUE:
            return 'T'
        if f == FALSE:
            return 'F'
        if depth <= 0:
            return '..'
        v, hi, lo = self.b[f]
        a = self.vpretty(v, depth)
        if hi == 1 and lo == 0:
            return a
        if hi == 0 and lo == 1:
            return '!' + a
        return '%s?%s:%s' % (a, self.bpretty(hi, depth - 1), self.bpretty(lo, depth - 1))


def n_bool(n):
    if n[0] == 'c':
        return TRUE if n[2] else FALSE
    return n[2]


def ftoval(bits, w):
    if w == 32:
        return struct.unpack('<f', struct.pack('<I', bits))[0]
    if w == 64:
        return struct.unpack('<d', struct.pack('<Q', bits))[0]
    raise ValueError(w)


def valtof(x, w):
    if w == 32:
        try:
            return struct.unpack('<I', struct.pack('<f', x))[0]
        except OverflowError:
            return 0x7f800000 | (0x80000000 if x < 0 else 0)
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def _h(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=24).digest(), 'little')


class Sampler:
    """Constant-fold terms under one assignment of the inputs (witness search)."""

    def __init__(self, ctx, assign):
        self.c = ctx
        self.assign = assign      # fn(key, width) -> int
        self.memo = {}
        self.bm = {}
        self.opaque = set()       # functions without a folding rule that were evaluated
        self.salt = ()            # value given to poison: two samplers with different salts show whether it is observed

    def term(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._term(t) & ((1 << self.c.w(t)) - 1)
            self.memo[t] = r
        return r

    def _term(self, t):
        n = self.c.n[t]
        op, w = n[0], n[1]
        if op == 'c':
            return n[2]
        if op == 'v':
            return self.assign(n[2], w)
        if op == 'ext':
            return self.term(n[2]) >> n[3]
        if op == 'cat':
            r = 0
            pos = 0
            for p in n[2]:
                r |= self.term(p) << pos
                pos += self.c.w(p)
            return r
        if op == 'fill':
            return -1 if self.bdd(n[2]) else 0
        if op == 'ite':
            return self.term(n[3]) if self.bvar(n[2]) else self.term(n[4])
        if op == 'poly':
            r = n[2]
            for c, m in n[3]:
                x = c
                for a in m:
                    x = x * self.term(a) & ((1 << w) - 1)
                r += x
            return r
        if op == 'bw':
            r = 0
            full = (1 << w) - 1
            return self.bwval(n[2], full)
        if op == 'op':
            return self.opval(n)
        raise AssertionError(n)

    def bwval(self, f, full):
        memo = {}

        def go(x):
            if x < 2:
                return full if x else 0
            r = memo.get(x)
            if r is None:
                v, hi, lo = self.c.b[x]
                k = self.c.vars[v]
                s = self.term(k[1]) if k[0] == 'bw' else (full if self.bvar(v) else 0)
                r = (s & go(hi)) | (~s & full & go(lo))
                memo[x] = r
            return r
        return go(f)

    def bdd(self, f):
        while f > 1:
            v, hi, lo = self.c.b[f]
            f = hi if self.bvar(v) else lo
        return f

    def bvar(self, v):
        r = self.bm.get(v)
        if r is None:
            r = self._bvar(self.c.vars[v])
            self.bm[v] = r
        return r

    def _bvar(self, k):
        if k[0] == 'in':
            return self.assign(k[1], 1) & 1
        if k[0] == 'bit':
            return self.term(k[1]) >> k[2] & 1
        if k[0] == 'eq':
            return int(self.term(k[1]) == self.term(k[2]))
        if k[0] == 'ult':
            return int(self.term(k[1]) < self.term(k[2]))
        if k[0] == 'slt':
            w = self.c.w(k[1])
            return int(sgn(self.term(k[1]), w) < sgn(self.term(k[2]), w))
        if k[0] in ('feq', 'flt'):
            w = self.c.w(k[1])
            x, y = ftoval(self.term(k[1]), w), ftoval(self.term(k[2]), w)
            return int(x == y if k[0] == 'feq' else x < y)
        if k[0] == 'ovf':
            w = self.c.w(k[2])
            x, y = self.term(k[2]), self.term(k[3])
            if k[1][0] == 's':
                x, y = sgn(x, w), sgn(y, w)
            v = {'add': x + y, 'sub': x - y, 'mul': x * y}[k[1][1:]]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if k[1][0] == 's' else (0, (1 << w) - 1)
            return int(not lo <= v <= hi)
        self.opaque.add(k[0])
        return _h(k[0], *[self.term(x) if isinstance(x, int) else x for x in k[1:]]) & 1

    def opval(self, n):
        import math
        w, name = n[1], n[2]
        a = [self.term(x) if isinstance(x, int) else x for x in n[3:]]
        aw = [self.c.w(x) for x in n[3:] if isinstance(x, int)]
        full = (1 << w) - 1
        try:
            if name == 'mul':
                return a[0] * a[1]
            if name == 'shl':
                return a[0] << a[1] if a[1] < w else _h('poison', *self.salt)
            if name == 'lshr':
                return a[0] >> a[1] if a[1] < w else _h('poison', *self.salt)
            if name == 'ashr':
                return sgn(a[0], w) >> a[1] if a[1] < w else _h('poison', *self.salt)
            if name == 'udiv' and a[1]:
                return a[0] // a[1]
            if name == 'urem' and a[1]:
                return a[0] % a[1]
            if name in ('sdiv', 'srem') and a[1]:
                x, y = sgn(a[0], w), sgn(a[1], w)
                q = abs(x) // abs(y)
                q = -q if (x < 0) != (y < 0) else q
                return q if name == 'sdiv' else x - q * y
            if name == 'umax':
                return max(a)
            if name == 'umin':
                return min(a)
            if name == 'smax':
                return max(sgn(x, w) for x in a)
            if name == 'smin':
                return min(sgn(x, w) for x in a)
            if name == 'ctpop':
                return bin(a[0]).count('1')
            if name == 'ctlz':
                return w - a[0].bit_length()
            if name == 'cttz':
                return w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
            if name == 'fshl':
                s = a[2] % w
                return a[0] if s == 0 else (a[0] << s) | (a[1] >> (w - s))
            if name in ('fadd', 'fsub', 'fmul', 'fdiv') and w in (32, 64):
                x, y = ftoval(a[0], w), ftoval(a[1], w)
                if name == 'fadd':
                    return fcanon(x + y, w)
                if name == 'fsub':
                    return fcanon(x - y, w)
                if name == 'fmul':
                    return fcanon(x * y, w)
                if y != 0:
                    return fcanon(x / y, w)
                if x == 0 or x != x:
                    return fcanon(float('nan'), w)
                return fcanon(math.copysign(float('inf'), x) * math.copysign(1, y), w)
            if name in ('minnum', 'maxnum') and w in (32, 64):
                x, y = ftoval(a[0], w), ftoval(a[1], w)
                if x != x:
                    return a[1]
                if y != y:
                    return a[0]
                return (a[0] if x < y else a[1]) if name == 'minnum' else (a[0] if x > y else a[1])
            if name in ('minimum', 'maximum') and w in (32, 64):
                x, y = ftoval(a[0], w), ftoval(a[1], w)
                if x != x or y != y:
                    return fcanon(float('nan'), w)
                return (a[0] if x < y else a[1]) if name == 'minimum' else (a[0] if x > y else a[1])
            if name in MATH and w in (32, 64):
                return fcanon(mathfn(name, *[ftoval(x, w) for x in a]), w)
            if name in ('fma', 'fmuladd') and w in (32, 64):
                return fmaval(name, a, w)
            if name in ('uadd.sat', 'usub.sat', 'sadd.sat', 'ssub.sat'):
                x, y = a
                if name[0] == 's':
                    x, y = sgn(x, w), sgn(y, w)
                v = x + y if name[1] == 'a' else x - y
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if name[0] == 's' else (0, full)
                return max(lo, min(hi, v))
            if name in ('uitofp', 'sitofp') and w in (32, 64):
                return itof(a[0] if name[0] == 'u' else sgn(a[0], aw[0]), w)
            if name == 'fpext' and (aw[0], w) == (32, 64):
                return valtof(ftoval(a[0], 32), 64)
            if name == 'fptrunc' and (aw[0], w) == (64, 32):
                return fcanon(ftoval(a[0], 64), 32)
            if name in ('fptosi', 'fptoui', 'fptosi.sat', 'fptoui.sat') and aw[0] in (32, 64):
                x = ftoval(a[0], aw[0])
                s = name.startswith('fptosi')
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, full)
                if x != x:
                    return 0 if name.endswith('sat') else _h('poison', *self.salt)
                if x in (float('inf'), float('-inf')):
                    v = hi + 1 if x > 0 else lo - 1
                else:
                    v = int(x)
                if lo <= v <= hi:
                    return v
                return (hi if v > hi else lo) if name.endswith('sat') else _h('poison', *self.salt)
        except (OverflowError, ValueError, ZeroDivisionError):
            pass
        if not name.startswith(('uninit:', 'poison', 'mem')):
            self.opaque.add(name)
        if name == 'poison':
            a = list(a) + list(self.salt)
        return _h(name, w, *a)


MATH = ('sqrt', 'tanh', 'tan', 'sin', 'cos', 'exp', 'exp2', 'log', 'log2', 'log10', 'pow', 'floor', 'ceil', 'trunc', 'frem',
        'rint', 'nearbyint', 'roundeven', 'canonicalize')


def mathfn(name, *a):
    import math
    nan = float('nan')
    if any(x != x for x in a):
        return nan
    try:
        if name == 'sqrt':
            return math.sqrt(a[0])
        if name in ('sin', 'cos', 'tan', 'tanh', 'exp', 'exp2'):
            return getattr(math, name)(a[0])
        if name in ('log', 'log2', 'log10'):
            return float('-inf') if a[0] == 0 else getattr(math, name)(a[0])
        if name == 'pow':
            return math.pow(*a)
        if name == 'frem':
            return math.fmod(*a)
        if a[0] in (float('inf'), float('-inf')):
            return a[0]
        r = float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(name, round)(a[0])) \
            if name != 'canonicalize' else a[0]
        return math.copysign(r, a[0])
    except ValueError:
        return nan
    except OverflowError:
        return float('inf')


def itof(v, w):
    """integer to float, nearest, ties to even"""
    if w == 64:
        return valtof(float(v), 64)
    m = abs(v)
    k = m.bit_length() - 24
    if k > 0:
        q, r = m >> k, m & ((1 << k) - 1)
        half = 1 << (k - 1)
        if r > half or r == half and q & 1:
            q += 1
        m = q << k
    try:
        return valtof(float(-m if v < 0 else m), 32)
    except OverflowError:
        return valtof(float('-inf' if v < 0 else 'inf'), 32)


def fmaval(name, a, w):
    from fractions import Fraction
    x, y, z = [ftoval(v, w) for v in a]
    if any(v != v or v in (float('inf'), float('-inf')) for v in (x, y, z)):
        return fcanon(x * y + z, w)
    r = Fraction(x) * Fraction(y) + Fraction(z)
    if r == 0:
        return fcanon(x * y + z if x * y == 0 else 0.0, w)
    try:
        if w == 64:
            return fcanon(float(r), 64)
        # round once to 24 bits
        import math
        e = math.frexp(float(r))[1] - 24
        e = max(e, -149)
        q = r / Fraction(2) ** e
        n = round(q)
        return fcanon(float(n * Fraction(2) ** e), 32)
    except OverflowError:
        return fcanon(float('inf') if r > 0 else float('-inf'), w)


def fcanon(x, w):
    if x != x:
        return valtof(float('nan'), w)
    return valtof(x, w)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x

"""Lane semantics of the LLVM and x86 intrinsics that occur in the analysed IR."""
import re
from term import TRUE, FALSE
from llir import Type, Int, PTR


def nary(fl, name, w, xs):
    return fl.c.nary(name, w, xs)


def minmax(fl, name, w, x, y):
    if fl.c.w(x) == 1:
        c = fl.c
        a, b = c.tobool(x), c.tobool(y)
        r = c.OR(a, b) if name in ('umax', 'smin') else c.AND(a, b)
        return c.boolterm(r)
    return nary(fl, name, w, [x, y])


def fpclass(fl, x, mask):
    c = fl.c
    w = c.w(x)
    e, m = c.fbits(w)
    sign = c.bit(x, w - 1)
    exo = c.ALL([c.bit(x, i) for i in range(m, m + e)])
    exz = c.ALL([c.NOT(c.bit(x, i)) for i in range(m, m + e)])
    mz = c.ALL([c.NOT(c.bit(x, i)) for i in range(m)])
    q = c.bit(x, m - 1)
    nan = c.AND(exo, c.NOT(mz))
    inf = c.AND(exo, mz)
    zero = c.AND(exz, mz)
    sub = c.AND(exz, c.NOT(mz))
    norm = c.AND(c.NOT(exo), c.NOT(exz))
    ns = c.NOT(sign)
    cl = [c.AND(nan, c.NOT(q)), c.AND(nan, q), c.AND(inf, sign), c.AND(norm, sign), c.AND(sub, sign),
          c.AND(zero, sign), c.AND(zero, ns), c.AND(sub, ns), c.AND(norm, ns), c.AND(inf, ns)]
    return c.ANY([b for i, b in enumerate(cl) if mask >> i & 1])


def intrinsic(fl, name, rty, args, mem, cond, d):
    c, mod = fl.c, fl.mod
    from flow import Unsupported
    base = name[5:]
    A = [a[1] for a in args]
    T = [a[0] for a in args]

    def lanes(i):
        return A[i] if isinstance(A[i], list) else [A[i]]

    def vmap(fn, *ix):
        return fl.vmap(rty, fn, *[A[i] for i in ix])

    rt = mod.resolve(rty)
    rw = None
    if rt.k in ('int', 'float', 'ptr'):
        rw = mod.bits(rt)
    elif rt.k == 'vec':
        rw = mod.bits(rt.b)

    h = base.split('.')[0]
    if h in ('memcpy', 'memmove'):
        n = c.isc(A[2])
        if n is None:
            raise Unsupported('memcpy with symbolic length')
        if n == 0:
            return None
        src, dst = fl.t2ptr(fl.choose(A[1], cond)), fl.t2ptr(fl.choose(A[0], cond))
        als = [a[2] if len(a) > 2 else 1 for a in d['args']]
        fl.check_align(src, als[1], cond, 'memcpy source')
        fl.check_align(dst, als[0], cond, 'memcpy destination')
        so, do = c.isc(src.off), c.isc(dst.off)
        if so is None or do is None:
            raise Unsupported('memcpy at symbolic offset')
        # copy segment-wise where the source has whole segments
        segs = []
        pos = 0
        s = fl.objsegs(mem, src.obj)
        while pos < n:
            e = s.get(so + pos)
            if e is None:
                o = fl.objs.get(src.obj)
                if o is not None and callable(o.init):
                    x = o.init(so + pos)
                    if x[0] == so + pos and pos + x[1] // 8 <= n and not any(
                            so + pos < k < so + pos + x[1] // 8 for k in s):
                        e = (x[1], None)
            if e is not None and pos + e[0] // 8 <= n:
                w = e[0]
            else:
                w = 8
            t = fl.load_bits(mem, src.obj, so + pos, w, cond)
            segs.append((pos, w, t))
            pos += w // 8
        for p, w, t in segs:
            if isinstance(dst.obj, tuple):
                fl.events.append((cond, 'store', c.add(c.add(dst.obj[1], dst.off), c.const(64, p)), t))
            elif not fl.ispoison(t):
                fl.store_bits(mem, dst.obj, do + p, w, t, cond)
        return None
    if h == 'memset':
        n = c.isc(A[2])
        if n is None:
            raise Unsupported('memset with symbolic length')
        dst = fl.t2ptr(fl.choose(A[0], cond))
        do = c.isc(dst.off)
        for i in range(n):
            fl.store_bits(mem, dst.obj, do + i, 8, A[1], cond)
        return None
    if h == 'ctpop':
        def f(x):
            if c.isc(x) is not None:
                return c.const(rw, bin(c.isc(x)).count('1'))
            nt = c._as_not(x)
            if nt is not None:
                return c.sub(c.const(rw, rw), c.op('ctpop', rw, nt))
            if c.n[x][0] == 'cat' and any(c.n[p][0] in ('c', 'fill') for p in c.n[x][2]):
                r = c.const(rw, 0)
                k, m = 0, {}
                for p in c.n[x][2]:
                    n = c.n[p]
                    if n[0] == 'c':
                        k += bin(n[2]).count('1')
                    elif n[0] == 'fill':
                        b = (c.zext(c.boolterm(n[2]), rw),)
                        m[b] = m.get(b, 0) + n[1]
                r = c.frompoly(rw, k, m)
                for p in c.n[x][2]:
                    n = c.n[p]
                    if n[0] not in ('c', 'fill'):
                        r = c.add(r, c.zext(c.op('ctpop', n[1], p), rw) if n[1] < rw else c.op('ctpop', rw, p))
                return r
            return c.op('ctpop', rw, x)
        return vmap(f, 0)
    if h in ('ctlz', 'cttz'):
        zp = c.isc(A[1])
        if zp:
            for x in lanes(0):
                z = c.AND(cond, c.eq(x, c.const(c.w(x), 0)))
                if z != FALSE:
                    fl.ub.append((z, h + ' of zero'))
        def f(x):
            k = c.isc(x)
            if k is None:
                return count_run(c, h, rw, x)
            if k == 0:
                return c.const(rw, rw)
            return c.const(rw, rw - k.bit_length() if h == 'ctlz' else (k & -k).bit_length() - 1)
        return vmap(f, 0)
    if h == 'bswap':
        return vmap(lambda x: c.cat([c.slice(x, i, 8) for i in range(rw - 8, -1, -8)]), 0)
    if h == 'bitreverse':
        return vmap(lambda x: c.cat([c.slice(x, i, 1) for i in range(rw - 1, -1, -1)]), 0)
    if h in ('fshl', 'fshr'):
        def f(x, y, s):
            k = c.isc(s)
            if k is not None:
                k %= rw
                if h == 'fshr':
                    k = (rw - k) % rw
                    if k == 0:
                        return y
                if k == 0:
                    return x
                return c.cat([c.slice(y, rw - k, k), c.slice(x, 0, rw - k)])
            if rw & (rw - 1) == 0:
                # only the low bits of the amount matter
                s = c.zext(c.slice(s, 0, rw.bit_length() - 1), rw)
            if x == y and h == 'fshr':
                s = c.neg(s)
                if rw & (rw - 1) == 0:
                    s = c.zext(c.slice(s, 0, rw.bit_length() - 1), rw)
                return c.op('fshl', rw, x, y, s)
            return c.op(h, rw, x, y, s)
        return vmap(f, 0, 1, 2)
    if h in ('umax', 'umin', 'smax', 'smin'):
        return vmap(lambda x, y: minmax(fl, h, rw, x, y), 0, 1)
    if h == 'abs':
        return vmap(lambda x: c.ite(c.bit(x, rw - 1), c.neg(x), x), 0)
    if h in ('uadd', 'usub', 'sadd', 'ssub', 'umul', 'smul') and 'with.overflow' in base:
        op = {'add': c.add, 'sub': c.sub, 'mul': c.mul}[h[1:]]
        w = mod.bits(T[0])
        r = op(A[0], A[1])
        if h == 'uadd':
            o = c.ult(r, A[0])
        elif h == 'usub':
            o = c.ult(A[0], A[1])
        else:
            o = c.var(('ovf', h, A[0], A[1]))
            if c.isc(A[0]) is not None and c.isc(A[1]) is not None:
                import term
                x, y = c.isc(A[0]), c.isc(A[1])
                if h[0] == 's':
                    x, y = term.sgn(x, w), term.sgn(y, w)
                v = {'add': x + y, 'sub': x - y, 'mul': x * y}[h[1:]]
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if h[0] == 's' else (0, (1 << w) - 1)
                o = FALSE if lo <= v <= hi else TRUE
        return [r, c.boolterm(o)]
    if h in ('uadd', 'usub', 'sadd', 'ssub') and '.sat' in base:
        return vmap(lambda x, y: c.opc(h + '.sat', rw, x, y) if 'add' in h else c.op(h + '.sat', rw, x, y), 0, 1)
    if h == 'fabs':
        return vmap(lambda x: c.cat([c.slice(x, 0, rw - 1), c.const(1, 0)]), 0)
    if h == 'copysign':
        return vmap(lambda x, y: c.cat([c.slice(x, 0, rw - 1), c.slice(y, rw - 1, 1)]), 0, 1)
    if h == 'is' and base.startswith('is.fpclass'):
        m = c.isc(A[1])
        return vmap(lambda x: c.boolterm(fpclass(fl, x, m)), 0)
    if h in ('fma', 'fmuladd'):
        return vmap(lambda x, y, z: c.op(h, rw, *(sorted((x, y)) + [z])), 0, 1, 2)
    if h in ('sqrt', 'sin', 'cos', 'exp', 'exp2', 'log', 'log2', 'log10', 'floor', 'ceil', 'trunc', 'rint',
             'nearbyint', 'round', 'roundeven', 'canonicalize'):
        return vmap(lambda x: c.op(h, rw, x), 0)
    if h == 'pow':
        return vmap(lambda x, y: c.op(h, rw, x, y), 0, 1)
    if h in ('minnum', 'maxnum', 'minimum', 'maximum'):
        return vmap(lambda x, y: x if x == y else c.opc(h, rw, x, y), 0, 1)
    if base.startswith('fptosi.sat') or base.startswith('fptoui.sat'):
        return vmap(lambda x: c.op(base[:10], rw, x), 0)
    if base.startswith('vector.reduce.'):
        k = base.split('.')[2]
        xs = lanes(1) if k in ('fadd', 'fmul') else lanes(0)
        w = rw
        if k == 'add':
            r = c.const(w, 0)
            for x in xs:
                r = c.add(r, x)
            return r
        if k == 'mul':
            r = c.const(w, 1)
            for x in xs:
                r = c.mul(r, x)
            return r
        if k in ('and', 'or', 'xor'):
            fn = {'and': c.and_, 'or': c.or_, 'xor': c.xor}[k]
            if w == 1:
                bs = [c.tobool(x) for x in xs]
                if k == 'and':
                    return c.boolterm(c.ALL(bs))
                if k == 'or':
                    return c.boolterm(c.ANY(bs))
            r = xs[0]
            for x in xs[1:]:
                r = fn(r, x)
            return r
        if k in ('umax', 'umin', 'smax', 'smin'):
            r = xs[0]
            for x in xs[1:]:
                r = minmax(fl, k, w, r, x)
            return r
        if k in ('fadd', 'fmul'):
            r = A[0]
            for x in xs:
                r = fl.fbin(k, w, r, x)
            return r
        if k in ('fmax', 'fmin'):
            r = xs[0]
            for x in xs[1:]:
                r = c.opc({'fmax': 'maxnum', 'fmin': 'minnum'}[k], w, r, x)
            return r
        raise Unsupported(name)
    if base.startswith('masked.gather'):
        out = []
        for p, m, pt in zip(A[0], A[2], A[3]):
            g = c.tobool(m)
            ld = deref(fl, mem, p, rw, c.AND(cond, g))
            out.append(fl.merge(g, ld, pt))
        return out
    if base.startswith('masked.scatter'):
        for v, p, m in zip(A[0], A[1], A[3]):
            g = c.AND(cond, c.tobool(m))
            if g != FALSE:
                fl.events.append((g, 'store', fl.p2t(p), fl.p2t(v)))
        return None
    if base.startswith('masked.load'):
        p = fl.t2ptr(fl.choose(A[0], cond))
        k = c.isc(p.off)
        out = []
        for i, (m, pt) in enumerate(zip(A[2], A[3])):
            g = c.tobool(m)
            ld = fl.load_bits(mem, p.obj, k + i * rw // 8, rw, c.AND(cond, g)) if g != FALSE else pt
            out.append(fl.merge(g, ld, pt))
        return out
    if base.startswith('masked.store'):
        p = fl.t2ptr(fl.choose(A[1], cond))
        k = c.isc(p.off)
        w = mod.bits(mod.resolve(T[0]).b)
        for i, (v, m) in enumerate(zip(A[0], A[3])):
            g = c.tobool(m)
            if g == FALSE:
                continue
            old = fl.load_bits(mem, p.obj, k + i * w // 8, w, FALSE)
            fl.store_bits(mem, p.obj, k + i * w // 8, w, fl.merge(g, v, old), c.AND(cond, g))
        return None
    if base.startswith('ptrmask'):
        return fl.t2p.get(A[0], A[0])
    if base.startswith('expect') or base.startswith('ssa.copy'):
        return A[0]
    # --- x86 ---------------------------------------------------------------
    x = base[4:] if base.startswith('x86.') else None
    if x:
        def hibits(i):
            return [c.slice(t, c.w(t) - 1, 1) for t in lanes(i)]
        if re.fullmatch(r'sse\.movmsk\.ps|sse2\.movmsk\.pd|sse2\.pmovmskb\.128|avx\.movmsk\.p[sd]\.256|avx2\.pmovmskb', x):
            return c.zext(c.cat(hibits(0)), 32)
        m = re.fullmatch(r'(?:sse41|avx)\.(ptest|vtest)(c|z|nzc)(?:\.p[sd])?(?:\.256)?', x)
        if m:
            if m.group(1) == 'ptest':
                a, b = c.cat(lanes(0)), c.cat(lanes(1))
            else:
                a, b = c.cat(hibits(0)), c.cat(hibits(1))
            w = c.w(a)
            zf = c.eq(c.and_(a, b), c.const(w, 0))
            cf = c.eq(c.and_(c.not_(a), b), c.const(w, 0))
            r = {'c': cf, 'z': zf, 'nzc': c.AND(c.NOT(zf), c.NOT(cf))}[m.group(2)]
            return c.zext(c.boolterm(r), 32)
        if x in ('ssse3.pshuf.b.128', 'avx2.pshuf.b'):
            a, ix = A
            out = []
            for i, s in enumerate(ix):
                blk = i // 16 * 16
                v = fl.pick(a[blk:blk + 16], c.slice(s, 0, 4), FALSE)
                out.append(c.ite(c.bit(s, 7), c.const(8, 0), v))
            return out
        if x in ('avx.vpermilvar.ps', 'avx.vpermilvar.ps.256'):
            a, ix = A
            return [fl.pick(a[i // 4 * 4:i // 4 * 4 + 4], c.slice(s, 0, 2), FALSE) for i, s in enumerate(ix)]
        if x in ('avx.vpermilvar.pd', 'avx.vpermilvar.pd.256'):
            a, ix = A
            return [fl.pick(a[i // 2 * 2:i // 2 * 2 + 2], c.slice(s, 1, 1), FALSE) for i, s in enumerate(ix)]
        if x in ('avx2.permd', 'avx2.permps'):
            a, ix = A
            return [fl.pick(a, c.slice(s, 0, 3), FALSE) for s in ix]
        m = re.fullmatch(r'avx512\.permvar\.\w+\.(\d+)', x)
        if m:
            a, ix = A
            n = len(a)
            return [fl.pick(a, c.slice(s, 0, n.bit_length() - 1), FALSE) for s in ix]
        m = re.fullmatch(r'(?:sse2|sse41|avx2)\.pack(ss|us)(wb|dw)(?:\.128)?', x)
        if m:
            sw = c.w(A[0][0])
            dw = sw // 2
            lo, hi = (-(1 << (dw - 1)), (1 << (dw - 1)) - 1) if m.group(1) == 'ss' else (0, (1 << dw) - 1)

            def sat(t):
                r = c.ite(c.slt(c.const(sw, hi), t), c.const(dw, hi), c.slice(t, 0, dw))
                return c.ite(c.slt(t, c.const(sw, lo)), c.const(dw, lo), r)
            out = []
            per = 128 // sw
            for blk in range(0, len(A[0]), per):
                for i in (0, 1):
                    out += [sat(t) for t in A[i][blk:blk + per]]
            return out
        m = re.fullmatch(r'(?:sse2|avx2)\.p(sll|srl|sra)(i?)\.([wdq])', x)
        if m:
            op = {'sll': 'shl', 'srl': 'lshr', 'sra': 'ashr'}[m.group(1)]
            if m.group(2):
                n = A[1]
            else:
                q = c.cat(A[1])
                n = c.slice(q, 0, 64)
            return [bigshift(fl, op, rw, t, n) for t in A[0]]
        m = re.fullmatch(r'avx2\.p(sll|srl|sra)v\.([dq])(?:\.256)?', x)
        if m:
            op = {'sll': 'shl', 'srl': 'lshr', 'sra': 'ashr'}[m.group(1)]
            return [bigshift(fl, op, rw, t, n) for t, n in zip(A[0], A[1])]
        if re.fullmatch(r'sse41\.(blendvp[sd]|pblendvb)|avx\.blendv\.p[sd]\.256|avx2\.pblendvb', x):
            return [c.ite(c.bit(g, c.w(g) - 1), b, a) for a, b, g in zip(*A)]
        if x in ('sse2.psad.bw', 'avx2.psad.bw'):
            out = []
            for blk in range(0, len(A[0]), 8):
                r = c.const(64, 0)
                for a, b in zip(A[0][blk:blk + 8], A[1][blk:blk + 8]):
                    d = c.ite(c.ult(a, b), c.sub(b, a), c.sub(a, b))
                    r = c.add(r, c.zext(d, 64))
                out.append(r)
            return out
        if x in ('sse.min.ps', 'sse2.min.pd', 'avx.min.ps.256', 'avx.min.pd.256'):
            return vmap(lambda a, b: c.ite(c.fcmp('olt', a, b), a, b), 0, 1)
        if x in ('sse.max.ps', 'sse2.max.pd', 'avx.max.ps.256', 'avx.max.pd.256'):
            return vmap(lambda a, b: c.ite(c.fcmp('ogt', a, b), a, b), 0, 1)
    # unknown intrinsic: uninterpreted function of all its operands
    if rt.k in ('int', 'float') and all(not isinstance(a, list) for a in A):
        return c.op(base, rw, *[fl.p2t(a) for a in A if a is not None])
    if rt.k == 'vec':
        flat = []
        for a in A:
            if isinstance(a, list):
                flat.append(c.cat([fl.p2t(q) for q in a]))
            elif a is not None:
                flat.append(fl.p2t(a))
        t = c.op(base, rw * rt.a, *flat)
        return [c.slice(t, i * rw, rw) for i in range(rt.a)]
    if rt.k in ('int', 'float'):
        flat = []
        for a in A:
            if isinstance(a, list):
                flat.append(c.cat([fl.p2t(q) for q in a]))
            elif a is not None:
                flat.append(fl.p2t(a))
        return c.op(base, rw, *flat)
    raise Unsupported(name)


def count_run(c, h, rw, x):
    """ctlz / cttz: constant pieces at the counted end are counted, and what lies behind a constant
    piece that starts with a one is never reached."""
    ps = list(c.n[x][2]) if c.n[x][0] == 'cat' else [x]
    if h == 'ctlz':
        ps.reverse()
    n = 0
    while ps and c.isc(ps[0]) == 0:
        n += c.w(ps.pop(0))
    if not ps:
        return c.const(rw, rw)
    k = c.isc(ps[0])
    if k is not None:
        return c.const(rw, n + (c.w(ps[0]) - k.bit_length() if h == 'ctlz' else (k & -k).bit_length() - 1))
    for i, q in enumerate(ps):
        k = c.isc(q)
        if k is not None and (k >> (c.w(q) - 1) if h == 'ctlz' else k & 1):
            ps = ps[:i]
            break
    w = sum(c.w(q) for q in ps)
    if len(ps) > 1 and all(c.n[q][0] in ('c', 'fill') for q in ps):
        r, at = c.const(rw, n + w), w
        for q in reversed(ps):
            at -= c.w(q)
            k = c.isc(q)
            if k is None:
                r = c.ite(c.n[q][2], c.const(rw, n + at), r)
            elif k:
                r = c.const(rw, n + at + (c.w(q) - k.bit_length() if h == 'ctlz' else (k & -k).bit_length() - 1))
        return r
    if h == 'ctlz':
        ps.reverse()
    t = c.op(h, w, c.cat(ps))
    t = c.zext(t, rw) if w < rw else t
    return c.add(t, c.const(rw, n)) if n else t


def bigshift(fl, op, w, t, n):
    """x86 shift: a count not below the width gives zero (or the sign)"""
    c = fl.c
    k = c.w(n)
    over = c.NOT(c.ultc(n, w))
    big = c.fill(w, c.bit(t, w - 1)) if op == 'ashr' else c.const(w, 0)
    if over == TRUE:
        return big
    n = c.zext(n, w) if k < w else c.slice(n, 0, w)
    if c.isc(n) is None and w & (w - 1) == 0:
        n = c.zext(c.slice(n, 0, w.bit_length() - 1), w)
    return c.ite(over, big, fl.shift(op, w, t, n, FALSE))


def deref(fl, mem, p, w, cond):
    q = fl.t2ptr(fl.choose(p, cond))
    k = fl.c.isc(q.off)
    if isinstance(q.obj, tuple):
        if cond != FALSE:
            fl.reads.append((cond, q.obj[1], q.off))
        return fl.c.op('mem', w, q.obj[1], q.off)
    return fl.load_bits(mem, q.obj, k, w, cond)

"""Specifications: for every public operation on every vector type, a probe
wrapper and the lane terms its result must have."""
import random
from core import *
from intrin import nary, minmax

FS = {'f32': 32, 'f64': 64}


def lane2(s, f):
    s.want['o'] = [f(x, y) for x, y in zip(s['a'], s['b'])]


# ------------------------------------------------------------ P01 arithmetic
def arith(s, v, nm, x, y):
    c = s.c
    if v.cls == 'f':
        return s.fl.fbin({'add': 'fadd', 'sub': 'fsub', 'mul': 'fmul', 'div': 'fdiv', 'rem': 'frem'}[nm], v.w, x, y)
    if nm in ('add', 'sub', 'mul'):
        return getattr(c, nm)(x, y)
    z = c.eq(y, c.const(v.w, 0))
    bad = z
    if v.cls == 'i':
        bad = c.OR(bad, c.AND(c.eq(y, c.const(v.w, -1)), c.eq(x, c.const(v.w, 1 << (v.w - 1)))))
    s.pre = c.AND(s.pre, c.NOT(bad))
    return s.fl.divrem(('s' if v.cls == 'i' else 'u') + nm, v.w, x, y, FALSE)


def forms(obs, types, ops, f, anchor, sv=True, sc=None):
    """vv / vs / sv / assign forms of a binary operator"""
    for v in types:
        sa = sc(v) if sc else elem_sc(v)

        def val(s, x, v=v, sa=sa):
            t = s[x]
            return [t] * v.n

        for nm, o in ops:
            def sp(l, r, out='o', v=v, nm=nm, sa=sa):
                def spec(s):
                    xs = s[l] if isinstance(s[l], list) else [s[l]] * v.n
                    ys = s[r] if isinstance(s[r], list) else [s[r]] * v.n
                    s.want[out] = [f(s, v, nm, x, y) for x, y in zip(xs, ys)]
                return spec
            A = anchor
            obs.append(Ob('%s %s vector,vector' % (nm, v), [('a', In(v)), ('b', In(v)), ('o', Out(v))],
                          '*o = *a %s *b' % o, sp('a', 'b'), A, nanloose=True))
            obs.append(Ob('%s %s vector,scalar' % (nm, v), [('a', In(v)), ('b', sa), ('o', Out(v))],
                          '*o = *a %s b' % o, sp('a', 'b'), A, nanloose=True))
            if sv:
                obs.append(Ob('%s %s scalar,vector' % (nm, v), [('a', sa), ('b', In(v)), ('o', Out(v))],
                              '*o = a %s *b' % o, sp('a', 'b'), A, nanloose=True))
            obs.append(Ob('%s_assign %s vector' % (nm, v), [('a', InOut(v)), ('b', In(v))],
                          '*a %s= *b' % o, sp('a', 'b', 'a'), A, nanloose=True))
            obs.append(Ob('%s_assign %s scalar' % (nm, v), [('a', InOut(v)), ('b', sa)],
                          '*a %s= b' % o, sp('a', 'b', 'a'), A, nanloose=True))
    return obs


TIER = 'quick'        # set by check.py


def p01():
    return forms([], IUF, [('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/'), ('rem', '%')], arith,
                 'src/api/ops/vector_arithmetic.rs src/api/ops/scalar_arithmetic.rs')


# --------------------------------------------------------------- P02 bitwise
def bitw(s, v, nm, x, y):
    c = s.c
    if v.cls == 'm' and c.w(x) == 1:
        x = c.fill(v.w, c.tobool(x))
    if v.cls == 'm' and c.w(y) == 1:
        y = c.fill(v.w, c.tobool(y))
    return {'bitand': c.and_, 'bitor': c.or_, 'bitxor': c.xor}[nm](x, y)


def shift(s, v, nm, x, y):
    c = s.c
    if c.w(y) == 32 and v.w != 32:
        s.pre = c.AND(s.pre, c.ultc(y, v.w))
        y = c.slice(y, 0, v.w) if v.w < 32 else c.zext(y, v.w)
    else:
        s.pre = c.AND(s.pre, c.ultc(y, v.w))
    op = 'shl' if nm == 'shl' else ('ashr' if v.cls == 'i' else 'lshr')
    return s.fl.shift(op, v.w, x, y, FALSE)


def p02():
    obs = []
    forms(obs, IU + MK, [('bitand', '&'), ('bitor', '|'), ('bitxor', '^')], bitw,
          'src/api/ops/vector_bitwise.rs src/api/ops/vector_mask_bitwise.rs')
    forms_sh = []
    for nm, o in [('shl', '<<'), ('shr', '>>')]:
        for v in IU:
            u = Sc('u32', 32)

            def sp(out, v=v, nm=nm):
                def spec(s):
                    ys = s['b'] if isinstance(s['b'], list) else [s['b']] * v.n
                    s.want[out] = [shift(s, v, nm, x, y) for x, y in zip(s['a'], ys)]
                return spec
            A = 'src/api/ops/vector_shifts.rs src/api/ops/scalar_shifts.rs'
            forms_sh.append(Ob('%s %s vector,vector' % (nm, v), [('a', In(v)), ('b', In(v)), ('o', Out(v))],
                               '*o = *a %s *b' % o, sp('o'), A))
            forms_sh.append(Ob('%s %s vector,u32' % (nm, v), [('a', In(v)), ('b', u), ('o', Out(v))],
                               '*o = *a %s b' % o, sp('o'), A))
            forms_sh.append(Ob('%s_assign %s vector' % (nm, v), [('a', InOut(v)), ('b', In(v))],
                               '*a %s= *b' % o, sp('a'), A))
            forms_sh.append(Ob('%s_assign %s u32' % (nm, v), [('a', InOut(v)), ('b', u)],
                               '*a %s= b' % o, sp('a'), A))
    obs += forms_sh
    for v in IU + MK:
        obs.append(Ob('not %s' % v, [('a', In(v)), ('o', Out(v))], '*o = !*a',
                      lambda s: s.want.__setitem__('o', [s.c.not_(x) for x in s['a']]),
                      'src/api/ops/vector_bitwise.rs'))
    return obs


# --------------------------------------------------------------- P03 rotates
def p03():
    obs = []
    for v in IU:
        for d in ('left', 'right'):
            def spec(s, v=v, d=d):
                c = s.c
                k = v.w.bit_length() - 1
                out = []
                for x, n in zip(s['a'], s['b']):
                    n = c.zext(c.slice(n, 0, k), v.w)
                    if d == 'right':
                        n = c.zext(c.slice(c.neg(n), 0, k), v.w)
                    out.append(c.op('fshl', v.w, x, x, n))
                s.want['o'] = out
            obs.append(Ob('rotate_%s %s' % (d, v), [('a', In(v)), ('b', In(v)), ('o', Out(v))],
                          '*o = a.rotate_%s(*b)' % d, spec, 'src/api/ops/vector_rotates.rs'))
    return obs


# ---------------------------------------------------------- P04 min/max/neg
def p04():
    obs = []
    for v in IU:
        for m in ('min', 'max'):
            k = ('s' if v.cls == 'i' else 'u') + m
            obs.append(Ob('%s %s' % (m, v), [('a', In(v)), ('b', In(v)), ('o', Out(v))], '*o = a.%s(*b)' % m,
                          lambda s, v=v, k=k: lane2(s, lambda x, y: minmax(s.fl, k, v.w, x, y)),
                          'src/api/ops/vector_int_min_max.rs'))
    for v in FL:
        for m in ('min', 'max'):
            obs.append(Ob('%s %s' % (m, v), [('a', In(v)), ('b', In(v)), ('o', Out(v))], '*o = a.%s(*b)' % m,
                          lambda s, v=v, m=m: lane2(s, lambda x, y: s.c.opc(m + 'num', v.w, x, y)),
                          'src/api/ops/vector_float_min_max.rs', nanloose='minmax'))
    for v in IUF:
        if v.cls == 'u':
            continue
        obs.append(Ob('neg %s' % v, [('a', In(v)), ('o', Out(v))], '*o = -*a',
                      lambda s, v=v: s.want.__setitem__('o', [s.c.flipsign(x) if v.cls == 'f' else s.c.neg(x)
                                                              for x in s['a']]),
                      'src/api/ops/vector_neg.rs', nanloose=True))
    return obs


# ----------------------------------------------------------- P05 comparisons
CMPS = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']


def vcmp(s, v, k, x, y):
    c = s.c
    if v.cls == 'f':
        return c.fcmp({'eq': 'oeq', 'ne': 'une', 'lt': 'olt', 'le': 'ole', 'gt': 'ogt', 'ge': 'oge'}[k], x, y)
    if v.cls == 'm':
        a, b = c.bit(x, 0), c.bit(y, 0)
        eq, lt, gt = c.NOT(c.XOR(a, b)), c.AND(c.NOT(a), b), c.AND(a, c.NOT(b))
    else:
        l = c.slt if v.cls == 'i' else c.ult
        eq, lt, gt = c.eq(x, y), l(x, y), l(y, x)
    return {'eq': eq, 'ne': c.NOT(eq), 'lt': lt, 'gt': gt, 'le': c.NOT(gt), 'ge': c.NOT(lt)}[k]


def p05():
    obs = []
    for v in ALLP:
        mv = TYPES[v.mask]
        for k in CMPS:
            obs.append(Ob('%s %s' % (k, v), [('a', In(v)), ('b', In(v)), ('o', Out(mv))], '*o = (*a).%s(*b)' % k,
                          lambda s, v=v, mv=mv, k=k: lane2(s, lambda x, y: s.c.fill(mv.w, vcmp(s, v, k, x, y))),
                          'src/api/cmp/vertical.rs'))
    for v in PTX:
        mv = TYPES[v.mask]
        obs.append(Ob('is_null %s' % v, [('a', In(v)), ('o', Out(mv))], '*o = (*a).is_null()',
                      lambda s, mv=mv: s.want.__setitem__('o', [s.c.fill(mv.w, s.c.eq(x, s.c.const(64, 0)))
                                                                for x in s['a']]),
                      'src/api/minimal/ptr.rs'))
    for v in FL:
        mv = TYPES[v.mask]
        e, m = (8, 23) if v.w == 32 else (11, 52)
        for k in ('is_nan', 'is_infinite', 'is_finite'):
            def spec(s, v=v, mv=mv, k=k, e=e, m=m):
                c = s.c
                out = []
                for x in s['a']:
                    ones = c.ALL([c.bit(x, i) for i in range(m, m + e)])
                    zero = c.ALL([c.NOT(c.bit(x, i)) for i in range(m)])
                    if k == 'is_nan':
                        b = c.fcmp('uno', x, x)
                    elif k == 'is_infinite':
                        b = c.AND(ones, zero)
                    else:
                        b = c.NOT(ones)
                    out.append(c.fill(mv.w, b))
                s.want['o'] = out
            obs.append(Ob('%s %s' % (k, v), [('a', In(v)), ('o', Out(mv))], '*o = a.%s()' % k, spec,
                          'src/api/math/float.rs'))
    return obs


# ------------------------------------------------------------- P06 equality
def p06():
    obs = []
    for v in ALLP:
        for k, o in (('eq', '=='), ('ne', '!=')):
            def spec(s, v=v, k=k):
                c = s.c
                e = c.ALL([vcmp(s, v, 'eq', x, y) for x, y in zip(s['a'], s['b'])])
                s.want['o'] = [c.zext(c.boolterm(e if k == 'eq' else c.NOT(e)), 8)]
            obs.append(Ob('%s %s whole' % (k, v), [('a', In(v)), ('b', In(v)), ('o', OutB())],
                          '*o = *a %s *b' % o, spec, 'src/api/cmp/partial_eq.rs'))
    return obs


# ---------------------------------------------------------- P07 lexicographic
def p07():
    obs = []
    for v in IU + MK:
        def base(s, v=v):
            c = s.c
            lt, gt = FALSE, FALSE
            for x, y in reversed(list(zip(s['a'], s['b']))):
                e = vcmp(s, v, 'eq', x, y)
                l = vcmp(s, v, 'lt', x, y)
                lt = c.bite(e, lt, l)
                gt = c.bite(e, gt, c.NOT(l))
            eq = c.ALL([vcmp(s, v, 'eq', x, y) for x, y in zip(s['a'], s['b'])])
            return lt, gt, eq
        for w in ('lex_ord', 'partial_lex_ord'):
            for k, o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
                def spec(s, k=k, base=base):
                    c = s.c
                    lt, gt, eq = base(s)
                    b = {'lt': lt, 'gt': gt, 'eq': eq, 'ne': c.NOT(eq), 'le': c.OR(lt, eq), 'ge': c.OR(gt, eq)}[k]
                    s.want['o'] = [c.zext(c.boolterm(b), 8)]
                obs.append(Ob('%s.%s %s' % (w, k, v), [('a', In(v)), ('b', In(v)), ('o', OutB())],
                              '*o = a.%s() %s b.%s()' % (w, o, w), spec, 'src/api/cmp/partial_ord.rs'))

            def spec(s, base=base):
                c = s.c
                lt, gt, eq = base(s)
                s.want['o'] = [c.ite(eq, c.const(8, 0), c.ite(lt, c.const(8, -1), c.const(8, 1)))]
            obs.append(Ob('%s.cmp %s' % (w, v), [('a', In(v)), ('b', In(v)), ('o', OutR('i8', [(0, 8)]))],
                          '*o = a.%s().cmp(&b.%s()) as i8' % (w, w), spec, 'src/api/cmp/ord.rs'))
            obs.append(Ob('%s.partial_cmp %s' % (w, v), [('a', In(v)), ('b', In(v)), ('o', OutR('i8', [(0, 8)]))],
                          '*o = match a.%s().partial_cmp(&b.%s()) { Some(x) => x as i8, None => 2 }' % (w, w), spec,
                          'src/api/cmp/partial_ord.rs'))
    return obs


# --------------------------------------------------- P08 mask reductions
def p08():
    obs = []
    for v in MK:
        for k in ('all', 'any', 'none'):
            def spec(s, k=k):
                c = s.c
                bs = [c.bit(x, 0) for x in s['a']]
                b = {'all': c.ALL(bs), 'any': c.ANY(bs), 'none': c.NOT(c.ANY(bs))}[k]
                s.want['o'] = [c.zext(c.boolterm(b), 8)]
            obs.append(Ob('%s %s' % (k, v), [('a', In(v)), ('o', OutB())], '*o = a.%s()' % k, spec,
                          'src/api/reductions/mask.rs src/codegen/reductions/mask/'))
        for k in ('and', 'or', 'xor'):
            def spec(s, k=k):
                c = s.c
                bs = [c.bit(x, 0) for x in s['a']]
                if k == 'xor':
                    b = FALSE
                    for x in bs:
                        b = c.XOR(b, x)
                else:
                    b = {'and': c.ALL(bs), 'or': c.ANY(bs)}[k]
                s.want['o'] = [c.zext(c.boolterm(b), 8)]
            obs.append(Ob('%s %s' % (k, v), [('a', In(v)), ('o', OutB())], '*o = a.%s()' % k, spec,
                          'src/api/reductions/bitwise.rs'))
    return obs


# ------------------------------------------------------------- P09 select
def p09():
    obs = []
    for m in MK:
        for v in ALLP:
            if v.n != m.n:
                continue

            def spec(s):
                c = s.c
                s.want['o'] = [c.ite(c.bit(k, 0), x, y) for k, x, y in zip(s['m'], s['a'], s['b'])]
            obs.append(Ob('select %s over %s' % (m, v), [('m', In(m)), ('a', In(v)), ('b', In(v)), ('o', Out(v))],
                          '*o = m.select(*a, *b)', spec, 'src/api/select.rs'))
    return obs


# -------------------------------------------------- P10 integer reductions
def p10():
    obs = []
    for v in IU:
        sg = 's' if v.cls == 'i' else 'u'

        def red(s, k, v=v, sg=sg):
            c = s.c
            xs = s['a']
            r = xs[0]
            f = {'wrapping_sum': c.add, 'wrapping_product': c.mul, 'and': c.and_, 'or': c.or_, 'xor': c.xor,
                 'max_element': lambda a, b: minmax(s.fl, sg + 'max', v.w, a, b),
                 'min_element': lambda a, b: minmax(s.fl, sg + 'min', v.w, a, b)}[k]
            for x in xs[1:]:
                r = f(r, x)
            s.want['o'] = [r]
        for k, an in (('wrapping_sum', 'integer_arithmetic'), ('wrapping_product', 'integer_arithmetic'),
                      ('and', 'bitwise'), ('or', 'bitwise'), ('xor', 'bitwise'), ('max_element', 'min_max'),
                      ('min_element', 'min_max')):
            obs.append(Ob('%s %s' % (k, v), [('a', In(v)), ('o', OutE(v))], '*o = a.%s()' % k,
                          lambda s, k=k, red=red: red(s, k), 'src/api/reductions/%s.rs' % an))
    obs += iters(IU, 'src/api/reductions/integer_arithmetic.rs')
    return obs


def iters(types, anchor):
    """iterators of every length below 10 and of some longer ones, with the exact length known (a slice
    iterator) or only an element at a time (no size hint, no fold of its own)"""
    obs = []
    for v in types:
        long = [16, 17, 33, 64, 65] if v.n <= 2 else [17] if v.n <= 16 else []
        if v.name in ('u8x2', 'i64x2', 'u128x1', 'f32x2', 'f64x2'):
            long += [130, 257, 600, 1030]
        for k, nm in (('sum', 'add'), ('product', 'mul')):
            for ref in (False, True):
                for cnt in list(range(6 if v.n > 8 else 10)) + long:
                    for src in ('slice', 'next'):
                        if src == 'next' and cnt not in (1, 3, 8, 17, 600, 1030):
                            continue
                        it = 'q.iter()' + ('' if ref else '.copied()')
                        if src == 'next':
                            it = '{ let mut i = 0; core::iter::from_fn(move || { let r = q.get(i)%s; i += 1; r }) }' % (
                                '' if ref else '.copied()')
                        body = '*o = %s.%s::<%s>()' % (it, k, v.rust)

                        def spec(s, v=v, nm=nm, cnt=cnt):
                            c = s.c
                            out = []
                            for i in range(v.n):
                                ls = [s['q'][j * v.n + i] for j in range(cnt)]
                                if v.cls == 'f':
                                    out.append(AC('f' + nm, v.w, ls))
                                else:
                                    r = c.const(v.w, 0 if nm == 'add' else 1)
                                    for x in ls:
                                        r = getattr(c, nm)(r, x)
                                    out.append(r)
                            s.want['o'] = out
                        fields = [(i * v.w // 8, v.w) for i in range(v.n * cnt)]
                        obs.append(Ob('Iterator::%s %s %s of %d by %s' % (k, v, 'refs' if ref else 'values', cnt, src),
                                      [('q', InR('[%s; %d]' % (v.rust, cnt), fields)), ('o', Out(v))], body, spec, anchor,
                                      nanloose=True))
    return obs


# ----------------------------------------------------- P11 float reductions
class AC:
    """a sum/product (or min/max) of exactly the given operands in any order and grouping"""

    def __init__(self, op, w, lanes):
        self.op, self.w, self.lanes = op, w, lanes
        one = {32: 0x3f800000, 64: 0x3ff0000000000000}[w]
        sign = 1 << (w - 1)
        self.unit = {'fadd': {0, sign}, 'fmul': {one}}.get(op, set())
        self.default = {'fadd': 0, 'fmul': one}.get(op)

    def accept(self, c, g):
        cnt = {}
        st = [g]
        steps = 0
        while st:
            steps += 1
            if steps > 4000:
                return False
            t = st.pop()
            n = c.n[t]
            if n[0] == 'op' and n[2] == self.op:
                st.extend(n[3:])
            else:
                cnt[t] = cnt.get(t, 0) + 1
        want = {}
        for l in self.lanes:
            want[l] = want.get(l, 0) + 1
        for t in list(cnt):
            k = c.isc(t)
            if k is not None and k in self.unit and t not in want:
                del cnt[t]
        if self.op in ('minnum', 'maxnum'):
            return set(cnt) == set(want)
        return cnt == want

    def refute(self, c, g, ob, deadline):
        from term import ftoval
        rnd = random.Random(7)
        for _ in range(200):
            vals, want = self.sample(c, rnd)
            sm = Sampler(c, lambda key, w: vals.get(key, 0))
            got = ftoval(sm.term(g), self.w)
            if sm.opaque:
                return None
            if got != want and (got == got or want == want):
                d = {k: hex(x) for k, x in vals.items()}
                d['computed'], d['required'] = repr(got), repr(want)
                return d
        return None

    def sample(self, c, rnd):
        """(assignment, expected value): values on which every order gives the same result"""
        from term import valtof
        vals = {}
        # an exceptional value absorbs the others: NaN and infinity in a sum, NaN, infinity and zero in a product
        special = rnd.choice((0, 0, .1, .5, 1.5 / max(1, len(self.lanes))))
        one = rnd.choice((None, (float('inf'),), (float('-inf'),), (float('nan'),), (0.0, -0.0)))
        for l in self.lanes:
            n = c.n[l]
            assert n[0] == 'v'
            inf = float('inf')
            if self.op == 'fadd':
                x = float(rnd.randrange(-50, 51))
                if rnd.random() < special:
                    x = rnd.choice((float('nan'), inf, -inf, 0.0, -0.0) if not one else one)
            elif self.op == 'fmul':
                x = rnd.choice([1.0, 2.0, 0.5, -1.0, -2.0, 4.0, 1.0, 1.0])
                if rnd.random() < special:
                    x = rnd.choice((float('nan'), inf, -inf, 0.0, -0.0) if not one else one)
            else:
                x = float(rnd.randrange(-1000, 1000))
                if rnd.random() < .15:
                    x = float('nan')
            vals[n[2]] = x
        xs = list(vals.values())
        if self.op == 'fadd':
            r = sum(vals[c.n[l][2]] for l in self.lanes) if self.lanes else 0.0
        elif self.op == 'fmul':
            r = 1.0
            for l in self.lanes:
                r *= vals[c.n[l][2]]
        else:
            ok = [x for x in xs if x == x]
            r = (min(ok) if self.op == 'minnum' else max(ok)) if ok else float('nan')
        return {k: valtof(x, self.w) for k, x in vals.items()}, r


def p11():
    obs = []
    for v in FL:
        for k, op in (('sum', 'fadd'), ('product', 'fmul'), ('max_element', 'maxnum'), ('min_element', 'minnum')):
            obs.append(Ob('%s %s' % (k, v), [('a', In(v)), ('o', OutE(v))], '*o = a.%s()' % k,
                          lambda s, v=v, op=op: s.want.__setitem__('o', [AC(op, v.w, s['a'])]),
                          'src/api/reductions/float_arithmetic.rs src/api/reductions/min_max.rs', nanloose=True))
    obs += iters(FL, 'src/api/reductions/float_arithmetic.rs')
    return obs


# ----------------------------------------------------------- P12 lane access
def mlane(s, v, t):
    """element term as stored in a lane"""
    return s.c.fill(v.w, s.c.tobool(t)) if v.cls == 'm' else t


def elane(s, v, t):
    """lane term as the API returns it"""
    return s.c.zext(s.c.boolterm(s.c.bit(t, 0)), 8) if v.cls == 'm' else t


def path(v):
    return '%s::<%s>' % (v.name, v.to) if v.cls == 'p' else v.name


def picki(s, v, i, xs):
    c = s.c
    r = xs[-1]
    for j in range(v.n - 2, -1, -1):
        r = c.ite(c.eq(i, c.const(64, j)), xs[j], r)
    return r


def p12():
    obs = []
    for v in ALLP:
        A = 'src/api/minimal/%s.rs' % {'m': 'mask', 'p': 'ptr'}.get(v.cls, 'iuf')
        es = elem_sc(v)
        names = ['x%d' % i for i in range(v.n)]
        obs.append(Ob('new %s' % v, [(n, es) for n in names] + [('o', Out(v))],
                      '*o = %s::new(%s)' % (path(v), ', '.join(names)),
                      lambda s, v=v, names=names: s.want.__setitem__('o', [mlane(s, v, s[n]) for n in names]), A))
        obs.append(Ob('splat %s' % v, [('x', es), ('o', Out(v))], '*o = %s::splat(x)' % path(v),
                      lambda s, v=v: s.want.__setitem__('o', [mlane(s, v, s['x'])] * v.n), A))
        obs.append(Ob('default %s' % v, [('o', Out(v))], '*o = Default::default()',
                      lambda s, v=v: s.want.__setitem__('o', [s.c.const(v.w, 0)] * v.n), 'src/api/default.rs'))
        obs.append(Ob('clone %s' % v, [('a', In(v)), ('o', Out(v))], '*o = Clone::clone(a)',
                      lambda s: s.want.__setitem__('o', s['a']), 'src/lib.rs'))
        obs.append(Ob('clone_from %s' % v, [('a', In(v)), ('b', In(v)), ('o', Out(v))],
                      'let mut t = *b; Clone::clone_from(&mut t, a); *o = t',
                      lambda s: s.want.__setitem__('o', s['a']), 'src/lib.rs'))
        if v.cls == 'p':
            obs.append(Ob('null %s' % v, [('o', Out(v))], '*o = %s::null()' % path(v),
                          lambda s, v=v: s.want.__setitem__('o', [s.c.const(v.w, 0)] * v.n), A))
        obs.append(Ob('lanes %s' % v, [('o', OutR('[usize; 2]', [(0, 64), (8, 64)]))],
                      '*o = [%s::lanes(), <%s as SimdVector>::LANES]' % (path(v), v.rust),
                      lambda s, v=v: s.want.__setitem__('o', [s.c.const(64, v.n)] * 2), A))
        for un in (False, True):
            def ex(s, v=v, un=un):
                c = s.c
                inr = c.ultc(s['i'], v.n)
                s.want['o'] = [elane(s, v, picki(s, v, s['i'], s['a']))]
                if un:
                    s.pre = inr
                else:
                    s.panic = c.NOT(inr)

            def rp(s, v=v, un=un):
                c = s.c
                inr = c.ultc(s['i'], v.n)
                nv = mlane(s, v, s['x'])
                s.want['o'] = [c.ite(c.eq(s['i'], c.const(64, j)), nv, a) for j, a in enumerate(s['a'])]
                if un:
                    s.pre = inr
                else:
                    s.panic = c.NOT(inr)
            u = '_unchecked' if un else ''
            w = 'unsafe { %s }' if un else '%s'
            obs.append(Ob('extract%s %s' % (u, v), [('a', In(v)), ('i', Sc('usize', 64)), ('o', OutE(v))],
                          '*o = ' + w % ('a.extract%s(i)' % u), ex, A))
            obs.append(Ob('replace%s %s' % (u, v), [('a', In(v)), ('i', Sc('usize', 64)), ('x', es), ('o', Out(v))],
                          '*o = ' + w % ('a.replace%s(i, x)' % u), rp, A))
    return obs


# ------------------------------------------------------------ P13/P14 slices
def misaligned(s, v):
    c = s.c
    a = s['sl.addr']
    k = v.bytes.bit_length() - 1
    return c.ANY([c.bit(a, i) for i in range(k)])


def slices(write):
    obs = []
    for v in IUF + PTX:
        for al in ('aligned', 'unaligned'):
            for un in (False, True):
                def spec(s, v=v, al=al, un=un):
                    c = s.c
                    bad = c.ultc(s['sl.len'], v.n)
                    if al == 'aligned':
                        bad = c.OR(bad, misaligned(s, v))
                    if un:
                        s.pre = c.NOT(bad)
                    else:
                        s.panic = bad
                    if write:
                        s.sl_want['sl'] = s['a']
                    else:
                        s.want['o'] = [s['sl'](k) for k in range(v.n)]
                u = '_unchecked' if un else ''
                if write:
                    body = 'a.write_to_slice_%s%s(sl)' % (al, u)
                    args = [('a', In(v)), ('sl', Sl(v.elem, v.w, True))]
                    A = 'src/api/slice/write_to_slice.rs'
                else:
                    body = '%s::from_slice_%s%s(sl)' % (path(v), al, u)
                    args = [('sl', Sl(v.elem, v.w)), ('o', Out(v))]
                    A = 'src/api/slice/from_slice.rs'
                if v.cls == 'p':
                    A = 'src/api/minimal/ptr.rs'
                if un:
                    body = 'unsafe { %s }' % body
                if not write:
                    body = '*o = ' + body
                obs.append(Ob('%s_slice_%s%s %s' % ('write_to' if write else 'from', al, u, v), args, body, spec, A))
    return obs


def p13():
    return slices(False)


def p14():
    return slices(True)


# ------------------------------------------------------------- P15 arrays
def p15():
    obs = []
    for v in ALLP:
        fields = [(i * v.w // 8, v.w) for i in range(v.n)]
        at = '[%s; %d]' % (v.elem, v.n)

        def spec(s):
            s.want['o'] = s['a']
        A = 'src/api/minimal/ptr.rs' if v.cls == 'p' else 'src/api/from/from_array.rs'
        obs.append(Ob('from array %s' % v, [('a', InR(at, fields, mask=v.cls == 'm')), ('o', Out(v))],
                      '*o = %s::from(*a)' % path(v), spec, A))
        obs.append(Ob('into array %s' % v, [('a', In(v)), ('o', OutR(at, fields))], '*o = (*a).into()', spec, A))
    return obs


# ------------------------------------------------------- P16/P17 conversions
def conv(s, f, t, x):
    """Rust's `as`, lane by lane"""
    c = s.c
    fc, tc = f.cls, t.cls
    if tc == 'm':
        if fc == 'm':
            return c.fill(t.w, c.bit(x, 0))
        if fc == 'f':
            return c.fill(t.w, c.fcmp('une', x, c.const(f.w, 0)))
        return c.fill(t.w, c.NOT(c.eq(x, c.const(f.w, 0))))
    if fc == 'm':
        fc = 'i'
    if fc in 'iu' and tc in 'iu':
        if t.w <= f.w:
            return c.slice(x, 0, t.w)
        return c.sext(x, t.w) if fc == 'i' else c.zext(x, t.w)
    if fc in 'iu' and tc == 'f':
        return s.fl.itofp('sitofp' if fc == 'i' else 'uitofp', t.w, x)
    if fc == 'f' and tc == 'f':
        if f.w == t.w:
            return x
        return s.fl.cast1('fpext' if t.w > f.w else 'fptrunc', f.w, t.w, x)
    return c.op('fpto%si.sat' % ('s' if tc == 'i' else 'u'), t.w, x)


def p16():
    obs = []
    for t, fs in CAT['casts'].items():
        for f in fs:
            F, T = TYPES[f], TYPES[t]
            obs.append(Ob('cast %s to %s' % (F, T), [('a', In(F)), ('o', Out(T))], '*o = (*a).cast()',
                          lambda s, F=F, T=T: s.want.__setitem__('o', [conv(s, F, T, x) for x in s['a']]),
                          'src/api/cast/macros.rs', nanloose=True))
    return obs


def p17():
    obs = []
    for T in ALL:
        for f in T.frm:
            F = TYPES[f]
            obs.append(Ob('from %s to %s' % (F, T), [('a', In(F)), ('o', Out(T))], '*o = %s::from(*a)' % T.name,
                          lambda s, F=F, T=T: s.want.__setitem__('o', [conv(s, F, T, x) for x in s['a']]),
                          'src/api/from/from_vector.rs', nanloose=True))
    return obs


# ------------------------------------------------------------- P18 into_bits
def relane(s, xs, w):
    c = s.c
    t = c.cat(xs)
    return [c.slice(t, i, w) for i in range(0, c.w(t), w)]


def p18():
    obs = []
    for t, fs in CAT['bits'].items():
        for f in fs:
            F, T = TYPES[f], TYPES[t]
            obs.append(Ob('into_bits %s to %s' % (F, T), [('a', In(F)), ('o', Out(T))], '*o = (*a).into_bits()',
                          lambda s, T=T: s.want.__setitem__('o', relane(s, s['a'], T.w)),
                          'src/api/into_bits/macros.rs'))
    for bits, archs in ((128, ('__m128', '__m128i', '__m128d')), (256, ('__m256', '__m256i', '__m256d'))):
        for v in NP:
            if v.bytes * 8 != bits or v.elem.endswith('size') or v.w == 128:
                continue
            for a in archs:
                ft = [(0, 64 * 1)] if False else [(i * 8, 64) for i in range(bits // 64)]
                obs.append(Ob('into_bits %s to %s' % (v, a),
                              [('a', In(v)), ('o', OutR('core::arch::x86_64::' + a, ft))],
                              '*o = (*a).into_bits()',
                              lambda s: s.want.__setitem__('o', relane(s, s['a'], 64)),
                              'src/api/into_bits/arch_specific.rs'))
                if v.cls != 'm':
                    obs.append(Ob('into_bits %s to %s' % (a, v),
                                  [('a', InR('core::arch::x86_64::' + a, ft)), ('o', Out(v))],
                                  '*o = (*a).into_bits()',
                                  lambda s, v=v: s.want.__setitem__('o', relane(s, s['a'], v.w)),
                                  'src/api/into_bits/arch_specific.rs'))
    return obs


# --------------------------------------------------------------- P19 bitmask
def p19():
    obs = []
    for v in IU + MK:
        bw = int(v.bm[1:])

        def spec(s, v=v, bw=bw):
            c = s.c
            s.want['o'] = [c.zext(c.cat([c.slice(x, v.w - 1, 1) for x in s['a']]), bw)]
        obs.append(Ob('bitmask %s' % v, [('a', In(v)), ('o', OutR(v.bm, [(0, bw)]))], '*o = a.bitmask()', spec,
                      'src/api/bitmask.rs'))
    return obs


# --------------------------------------------------------------- P20 shuffle
def p20():
    obs = []
    rnd = random.Random(2020)
    done = set()
    byel = {}
    for v in ALL:
        byel.setdefault((v.cls, v.elem, v.mut), {})[v.n] = v
    for (cls, el, mut), d in byel.items():
        for n, v in sorted(d.items()):
            for k, o in sorted(d.items()):
                if k < 2:
                    continue
                pats = [('rand1', 1, [rnd.randrange(n) for _ in range(k)]),
                        ('rand2', 2, [rnd.randrange(2 * n) for _ in range(k)])]
                pats.append(('first', 1, [0] * k))
                pats.append(('last', 2, [2 * n - 1] * k))
                pats.append(('cycle', 2, [i % (2 * n) for i in range(k)]))
                pats.append(('top', 2, [(2 * n - k + i) % (2 * n) for i in range(k)]))
                pats.append(('odd', 2, [(2 * i + 1) % (2 * n) for i in range(k)]))
                if k == n:
                    pats.append(('id', 1, list(range(n))))
                    pats.append(('second', 2, list(range(n, 2 * n))))
                    pats.append(('rev', 1, list(range(n - 1, -1, -1))))
                    pats.append(('zip', 2, [i // 2 + (n if i % 2 else 0) for i in range(n)]))
                    pats.append(('hi', 2, [2 * n - 1 - i for i in range(n)]))
                if TIER == 'thorough':
                    # rotations: together they contain every (output lane, index) pair
                    full = (n, k) not in done
                    done.add((n, k))
                    js = range(2 * n) if full or k == n <= 8 else rnd.sample(range(2 * n), min(2 * n, 6))
                    pats += [('rot%d' % j, 2, [(i + j) % (2 * n) for i in range(k)]) for j in js]
                    pats += [('one%d' % j, 1, [(i + j) % n for i in range(k)]) for j in (js if full else [])[:n]]
                for nm, ar, ix in pats:
                    def spec(s, ix=ix, ar=ar):
                        src = s['a'] + (s['b'] if ar == 2 else [])
                        s.want['o'] = [src[i] for i in ix]
                    body = '*o = shuffle!(*a, %s[%s])' % ('*b, ' if ar == 2 else '', ', '.join(map(str, ix)))
                    obs.append(Ob('shuffle %s to %d lanes %s' % (v, k, nm),
                                  [('a', In(v))] + ([('b', In(v))] if ar == 2 else []) + [('o', Out(o))], body, spec,
                                  'src/api/shuffle.rs src/codegen/shuffle.rs src/codegen/llvm.rs'))
                for ar, ix in ((1, [k_ % n for k_ in range(k)]), (2, [(2 * n - 1 - k_) % (2 * n) for k_ in range(k)])):
                    # operands are expressions: each is evaluated once, the first one first
                    def spec(s, ix=ix, ar=ar):
                        src = s['a'] + (s['b'] if ar == 2 else [])
                        s.want['o'] = [src[i] for i in ix]
                        s.want['e'] = [s.c.add(s.c.mul(s['n'], s.c.const(32, 3 ** ar)), s.c.const(32, 1 if ar == 1 else 5))]
                    body = 'let mut t: u32 = n; *o = shuffle!({ t = t.wrapping_mul(3).wrapping_add(1); *a }, %s[%s]); *e = t' % (
                        '{ t = t.wrapping_mul(3).wrapping_add(2); *b }, ' if ar == 2 else '', ', '.join(map(str, ix)))
                    obs.append(Ob('shuffle %s to %d lanes, %s' % (v, k, 'operand evaluated once' if ar == 1 else
                                                                  'operands evaluated once and in order'),
                                  [('n', Sc('u32', 32))] + [('a', In(v))] + ([('b', In(v))] if ar == 2 else []) +
                                  [('o', Out(o)), ('e', OutR('u32', [(0, 32)]))], body, spec, 'src/api/shuffle.rs'))
    return obs


# ---------------------------------------------------------- P21 shuffle1_dyn
def p21():
    obs = []
    for v in ALLP:
        if v.cls == 'p' or v.elem.endswith('size'):
            ix = TYPES['usizex%d' % v.n]
        else:
            ix = TYPES['u%sx%d' % (v.w, v.n)]

        def spec(s, v=v, ix=ix):
            c = s.c
            out = []
            for i in s['i']:
                s.pre = c.AND(s.pre, c.ultc(i, v.n))
            for i in s['i']:
                # compare only the index bits that can be set below the lane count
                k = (v.n - 1).bit_length()
                lo = c.slice(i, 0, k) if k else None
                r = s['a'][-1]
                for j in range(v.n - 2, -1, -1):
                    r = c.ite(c.eq(lo, c.const(k, j)), s['a'][j], r)
                out.append(r)
            s.want['o'] = out
        obs.append(Ob('shuffle1_dyn %s' % v, [('a', In(v)), ('i', In(ix)), ('o', Out(v))],
                      '*o = a.shuffle1_dyn(*i)', spec, 'src/codegen/shuffle1_dyn.rs'))
    return obs


# ------------------------------------------------------------- P22 bit counts
def p22():
    obs = []
    for v in IU:
        for k in ('count_ones', 'count_zeros', 'leading_zeros', 'trailing_zeros'):
            def spec(s, v=v, k=k):
                c = s.c
                f = {'count_ones': lambda x: c.op('ctpop', v.w, x),
                     'count_zeros': lambda x: c.sub(c.const(v.w, v.w), c.op('ctpop', v.w, x)),
                     'leading_zeros': lambda x: c.op('ctlz', v.w, x),
                     'trailing_zeros': lambda x: c.op('cttz', v.w, x)}[k]
                s.want['o'] = [f(x) for x in s['a']]
            obs.append(Ob('%s %s' % (k, v), [('a', In(v)), ('o', Out(v))], '*o = a.%s()' % k, spec,
                          'src/api/bit_manip.rs src/codegen/bit_manip.rs'))
    return obs


# -------------------------------------------------------------- P23 byte swap
def p23():
    obs = []
    for v in IU:
        def rev(s, v=v):
            c = s.c
            t = c.cat(s['a'])
            b = [c.slice(t, i, 8) for i in range(0, v.n * v.w, 8)]
            t = c.cat(b[::-1])
            s.want['o'] = [c.slice(t, i * v.w, v.w) for i in range(v.n)]

        def ident(s):
            s.want['o'] = s['a']
        A = 'src/api/swap_bytes.rs src/codegen/swap_bytes.rs'
        for k, e, sp in (('swap_bytes', 'a.swap_bytes()', rev), ('to_le', 'a.to_le()', ident),
                         ('to_be', 'a.to_be()', rev), ('from_le', '%s::from_le(*a)' % v, ident),
                         ('from_be', '%s::from_be(*a)' % v, rev)):
            obs.append(Ob('%s %s' % (k, v), [('a', In(v)), ('o', Out(v))], '*o = ' + e, sp, A))
    return obs


# ------------------------------------------------------------- P24 float math
CONSTS = '''EPSILON MIN MIN_POSITIVE MAX INFINITY NEG_INFINITY PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6
FRAC_PI_8 FRAC_1_PI FRAC_2_PI FRAC_2_SQRT_PI SQRT_2 FRAC_1_SQRT_2 E LOG2_E LOG10_E LN_2 LN_10'''.split()


def fconst(name, w):
    import math
    from fractions import Fraction
    from term import valtof
    import decimal
    decimal.getcontext().prec = 60
    D = decimal.Decimal
    pi = D('3.14159265358979323846264338327950288419716939937510582097494')
    e = D('2.71828182845904523536028747135266249775724709369995957496697')
    ln2, ln10 = D(2).ln(), D(10).ln()
    tab = {'PI': pi, 'FRAC_PI_2': pi / 2, 'FRAC_PI_3': pi / 3, 'FRAC_PI_4': pi / 4, 'FRAC_PI_6': pi / 6,
           'FRAC_PI_8': pi / 8, 'FRAC_1_PI': 1 / pi, 'FRAC_2_PI': 2 / pi, 'FRAC_2_SQRT_PI': 2 / pi.sqrt(),
           'SQRT_2': D(2).sqrt(), 'FRAC_1_SQRT_2': 1 / D(2).sqrt(), 'E': e, 'LOG2_E': 1 / ln2, 'LOG10_E': 1 / ln10,
           'LN_2': ln2, 'LN_10': ln10}
    mant, emax = (23, 127) if w == 32 else (52, 1023)
    one = emax << mant
    sign = 1 << (w - 1)
    if name in tab:
        return valtof(float(tab[name]), w)
    return {'EPSILON': (emax - mant) << mant, 'MIN_POSITIVE': 1 << mant,
            'MAX': ((2 * emax) << mant) | ((1 << mant) - 1),
            'MIN': sign | ((2 * emax) << mant) | ((1 << mant) - 1),
            'INFINITY': (2 * emax + 1) << mant, 'NEG_INFINITY': sign | (2 * emax + 1) << mant}[name]


class OneOf:
    """any of several accepted forms"""

    def __init__(self, ts):
        self.ts = ts

    def refute(self, c, g, ob, deadline):
        ws = [witness(c, None, None, ob, '', TRUE, g, t, TRUE, deadline) for t in self.ts]
        return ws[0] if all(w is not None for w in ws) else None

    def accept(self, c, g):
        return g in self.ts


def p24():
    obs = []
    for v in FL:
        mant, emax = (23, 127) if v.w == 32 else (52, 1023)
        one = emax << mant
        PI = fconst('PI', v.w)
        A = 'src/api/math/float/ src/codegen/math/float/'

        def un(k, f, v=v, A=A, loose=True):
            obs.append(Ob('%s %s' % (k, v), [('a', In(v)), ('o', Out(v))], '*o = a.%s()' % k,
                          lambda s: s.want.__setitem__('o', [f(s, x) for x in s['a']]), A, nanloose=loose))
        un('abs', lambda s, x: s.c.cat([s.c.slice(x, 0, s.c.w(x) - 1), s.c.const(1, 0)]))
        un('sqrt', lambda s, x: s.c.op('sqrt', s.c.w(x), x))
        EST = ('ulp', 1.5 * 2.0 ** (11 if v.w == 32 else 40))
        un('tanh', lambda s, x: s.c.op('tanh', s.c.w(x), x), loose=('ulp', 1))
        un('sqrte', loose=EST, f=lambda s, x: s.c.op('sqrt', s.c.w(x), x))
        un('rsqrte', loose=EST, f=lambda s, x, one=one: s.fl.fbin('fdiv', s.c.w(x), s.c.const(s.c.w(x), one),
                                                     s.c.op('sqrt', s.c.w(x), x)))
        un('recpre', loose=EST, f=lambda s, x, one=one: s.fl.fbin('fdiv', s.c.w(x), s.c.const(s.c.w(x), one), x))
        for k, op in (('sin', 'sin'), ('cos', 'cos'), ('exp', 'exp'), ('ln', 'log')):
            un(k, lambda s, x, op=op: s.c.op(op, s.c.w(x), x), loose=('ulp', 1))
        for k, op in (('sin_pi', 'sin'), ('cos_pi', 'cos')):
            un(k, lambda s, x, op=op, PI=PI: s.c.op(op, s.c.w(x), s.fl.fbin('fmul', s.c.w(x), x,
                                                                            s.c.const(s.c.w(x), PI))), loose=('ulp', 1))

        def sc(s, v=v, PI=PI):
            c = s.c
            ps = [s.fl.fbin('fmul', v.w, x, c.const(v.w, PI)) for x in s['a']]
            s.want['o'] = [c.op('sin', v.w, p) for p in ps]
            s.want['p'] = [c.op('cos', v.w, p) for p in ps]
        obs.append(Ob('sin_cos_pi %s' % v, [('a', In(v)), ('o', Out(v)), ('p', Out(v))],
                      'let (x, y) = a.sin_cos_pi(); *o = x; *p = y', sc, A, nanloose=('ulp', 1)))
        obs.append(Ob('powf %s' % v, [('a', In(v)), ('b', In(v)), ('o', Out(v))], '*o = a.powf(*b)',
                      lambda s, v=v: lane2(s, lambda x, y: s.c.op('pow', v.w, x, y)), A, nanloose=('ulp', 1)))

        def fma(s, v=v):
            c = s.c
            s.want['o'] = [c.op('fma', v.w, *(sorted((x, y)) + [z])) for x, y, z in zip(s['a'], s['b'], s['d'])]

        def fme(s, v=v):
            c = s.c
            out = []
            for x, y, z in zip(s['a'], s['b'], s['d']):
                xy = sorted((x, y))
                out.append(OneOf([c.op('fma', v.w, *(xy + [z])), c.op('fmuladd', v.w, *(xy + [z])),
                                  s.fl.fbin('fadd', v.w, s.fl.fbin('fmul', v.w, x, y), z)]))
            s.want['o'] = out
        obs.append(Ob('mul_add %s' % v, [('a', In(v)), ('b', In(v)), ('d', In(v)), ('o', Out(v))],
                      '*o = a.mul_add(*b, *d)', fma, A, nanloose=True))
        obs.append(Ob('mul_adde %s' % v, [('a', In(v)), ('b', In(v)), ('d', In(v)), ('o', Out(v))],
                      '*o = a.mul_adde(*b, *d)', fme, A, nanloose=True))
        for k in CONSTS:
            obs.append(Ob('%s::%s' % (v, k), [('o', Out(v))], '*o = %s::%s' % (v, k),
                          lambda s, v=v, k=k: s.want.__setitem__('o', [s.c.const(v.w, fconst(k, v.w))] * v.n),
                          'src/api/math/float/consts.rs'))
        obs.append(Ob('%s::NAN' % v, [('o', Out(v))], '*o = %s::NAN' % v,
                      lambda s, v=v: s.want.__setitem__('o', [NaN(v.w)] * v.n), 'src/api/math/float/consts.rs'))
    return obs


class NaN:
    def __init__(self, w):
        self.w = w

    def accept(self, c, g):
        k = c.isc(g)
        return k is not None and isnanv(k, self.w)

    def refute(self, c, g, ob, deadline):
        k = c.isc(g)
        return None if k is None else {'computed': hex(k), 'required': 'a NaN'}


# ------------------------------------------------------------- P27 pointers
def p27():
    obs = []
    for v in PT:
        for el, sz in (('u8', 1), ('u32', 4), ('u64', 8), ('[u8; 3]', 3), ('()', 0), ('u128', 16),
                       ('[u16; 129]', 258), ('[u8; 65537]', 65537), ('[u64; 0x1_0000_0001]', 0x8_0000_0008),
                       ('(u32, u8)', 8), ('core::num::NonZeroU16', 2)):
            W = V(v.name, CAT['types'][v.name], el)
            U, I = TYPES['usizex%d' % v.n], TYPES['isizex%d' % v.n]
            A = 'src/api/minimal/ptr.rs'
            for k, cv, sg, us in (('offset', I, 1, True), ('wrapping_offset', I, 1, False), ('add', U, 1, True),
                                  ('wrapping_add', U, 1, False), ('sub', U, -1, True), ('wrapping_sub', U, -1, False)):
                def spec(s, sg=sg, sz=sz):
                    c = s.c
                    lane2(s, lambda x, y: c.add(x, c.mul(y, c.const(64, sg * sz))))
                e = '(*a).%s(*b)' % k
                obs.append(Ob('%s %s of %s' % (k, v.name, el), [('a', In(W)), ('b', In(cv)), ('o', Out(W))],
                              '*o = ' + ('unsafe { %s }' % e if us else e), spec, A))
            for k, us in (('offset_from', True), ('wrapping_offset_from', False)):
                if not sz and us:
                    continue

                def spec(s, sz=sz, I=I):
                    c = s.c
                    if not sz:
                        # there is no distance in units of nothing
                        s.panic = TRUE
                        s.want['o'] = [c.const(64, 0)] * I.n
                        return
                    lane2(s, lambda x, y: s.fl.divrem('sdiv', 64, c.sub(x, y), c.const(64, sz), FALSE))
                e = '(*a).%s(*b)' % k
                obs.append(Ob('%s %s of %s' % (k, v.name, el), [('a', In(W)), ('b', In(W)), ('o', Out(I))],
                              '*o = ' + ('unsafe { %s }' % e if us else e), spec, A))
    return obs


# ------------------------------------------------------- P28 gather/scatter
def footprint(fl, s):
    """loads through lane pointers happen only under that lane's mask bit"""
    c = fl.c
    probs = []
    zero = c.const(64, 0)
    for cond, base, off in fl.reads:
        ok = FALSE
        for m, p in zip(s['m'], s['a']):
            if p == base:
                ok = c.OR(ok, c.bit(m, 0))
        if ok == FALSE:
            # an address that is not a lane pointer as it stands: not classified
            probs.append(('address read from is not a lane pointer', FALSE, None, None))
            continue
        bad = c.AND(cond, c.NOT(ok))
        if bad != FALSE:
            probs.append(('memory read behind a disabled lane', bad, None, None))
    return probs


class Gather:
    def __call__(self, fl, s, rc, rv, mem, ok, vd):
        vd.cmp += len(fl.reads)
        probs = footprint(fl, s)
        for cond, k, p, x in fl.events:
            probs.append(('memory write in a read', cond, None, None))
        return probs


class Scatter:
    """stores: lane i's value through lane i's pointer exactly under lane i's
    mask bit, later lanes after earlier ones (overlapping pointers)"""

    def __call__(self, fl, s, rc, rv, mem, ok, vd):
        c = fl.c
        probs = footprint(fl, s)
        lanes = list(zip(s['m'], s['a'], s['x']))
        vd.cmp += len(lanes)
        conds = [FALSE] * len(lanes)
        last = -1
        for cond, k, p, x in fl.events:
            i = next((i for i, (m, q, y) in enumerate(lanes) if q == p and y == x), None)
            if i is None:
                j = next((i for i, (m, q, y) in enumerate(lanes) if q == p), None)
                if j is not None:
                    probs.append(('value stored through pointer %d' % j, cond, x, lanes[j][2]))
                    continue
                j = next((i for i, (m, q, y) in enumerate(lanes) if y == x), None)
                if j is not None:
                    probs.append(('address lane %d is stored to' % j, cond, p, lanes[j][1]))
                    continue
                probs.append(('store not attributed to a lane', FALSE, None, None))
                continue
            if i < last:
                probs.append(('lane %d stored after lane %d' % (i, last), c.AND(cond, c.bit(lanes[last][0], 0)),
                              None, None))
            last = max(i, last)
            conds[i] = c.OR(conds[i], cond)
        for i, (m, q, y) in enumerate(lanes):
            d = c.XOR(conds[i], c.bit(m, 0))
            if d != FALSE:
                probs.append(('condition of the store of lane %d' % i, d, None, None))
        return probs


def p28():
    obs = []
    for v in PT:
        for el in sorted(set(t.elem for t in IUF if not t.elem.endswith('size'))):
            tn = '%sx%d' % (el, v.n)
            if tn not in TYPES:
                continue
            X = TYPES[tn]
            W = V(v.name, CAT['types'][v.name], el)
            for mt in MK:
                if mt.n != v.n:
                    continue

                def spec(s, X=X):
                    c = s.c
                    s.want['o'] = [c.ite(c.bit(m, 0), c.op('mem', X.w, p, c.const(64, 0)), x)
                                   for m, p, x in zip(s['m'], s['a'], s['x'])]
                obs.append(Ob('read %s of %s under %s' % (v, el, mt),
                              [('a', In(W)), ('m', In(mt)), ('x', In(X)), ('o', Out(X))],
                              '*o = unsafe { (*a).read(*m, *x) }', spec, 'src/api/ptr/gather_scatter.rs',
                              check=Gather()))
                if v.mut:
                    obs.append(Ob('write %s of %s under %s' % (v, el, mt),
                                  [('a', In(W)), ('m', In(mt)), ('x', In(X))],
                                  'unsafe { (*a).write(*m, *x) }', lambda s: None,
                                  'src/api/ptr/gather_scatter.rs', check=Scatter()))
    return obs


# ---------------------------------------------------------- P33 mask scalars
def p33():
    obs = []
    for m, w in (('m8', 8), ('m16', 16), ('m32', 32), ('m64', 64), ('m128', 128), ('msize', 64)):
        A = 'src/masks.rs'
        ms = lambda n: (n, InR(m, [(0, w)], mask=True))
        obs.append(Ob('new %s' % m, [('x', Sc('bool', 1, 'bool')), ('o', OutR(m, [(0, w)]))], '*o = %s::new(x)' % m,
                      lambda s, w=w: s.want.__setitem__('o', [s.c.fill(w, s.c.tobool(s['x']))]), A))
        obs.append(Ob('default %s' % m, [('o', OutR(m, [(0, w)]))], '*o = Default::default()',
                      lambda s, w=w: s.want.__setitem__('o', [s.c.const(w, 0)]), A))
        obs.append(Ob('test %s' % m, [ms('a'), ('o', OutB())], '*o = a.test()',
                      lambda s: s.want.__setitem__('o', [s.c.zext(s.c.boolterm(s.c.bit(s['a'][0], 0)), 8)]), A))
        obs.append(Ob('Mask::test %s' % m, [ms('a'), ('o', OutB())], '*o = Mask::test(a)',
                      lambda s: s.want.__setitem__('o', [s.c.zext(s.c.boolterm(s.c.bit(s['a'][0], 0)), 8)]), A))
        for k, o in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
            def spec(s, k=k):
                c = s.c
                a, b = c.bit(s['a'][0], 0), c.bit(s['b'][0], 0)
                r = {'eq': c.NOT(c.XOR(a, b)), 'ne': c.XOR(a, b), 'lt': c.AND(c.NOT(a), b), 'gt': c.AND(a, c.NOT(b)),
                     'le': c.OR(c.NOT(a), b), 'ge': c.OR(a, c.NOT(b))}[k]
                s.want['o'] = [c.zext(c.boolterm(r), 8)]
            obs.append(Ob('%s %s' % (k, m), [ms('a'), ms('b'), ('o', OutB())], '*o = *a %s *b' % o, spec, A))

        def cspec(s):
            c = s.c
            a, b = c.bit(s['a'][0], 0), c.bit(s['b'][0], 0)
            s.want['o'] = [c.ite(c.XOR(a, b), c.ite(a, c.const(8, 1), c.const(8, -1)), c.const(8, 0))]
        obs.append(Ob('cmp %s' % m, [ms('a'), ms('b'), ('o', OutR('i8', [(0, 8)]))], '*o = a.cmp(b) as i8', cspec, A))
        obs.append(Ob('partial_cmp %s' % m, [ms('a'), ms('b'), ('o', OutR('i8', [(0, 8)]))],
                      '*o = match a.partial_cmp(b) { Some(x) => x as i8, None => 2 }', cspec, A))
        for k in ('max', 'min', 'clone', 'clone_from'):
            def spec(s, k=k, w=w):
                c = s.c
                a, b = c.bit(s['a'][0], 0), c.bit(s['b'][0], 0)
                s.want['o'] = [c.fill(w, {'max': c.OR(a, b), 'min': c.AND(a, b)}.get(k, a))]
            obs.append(Ob('%s %s' % (k, m), [ms('a'), ms('b'), ('o', OutR(m, [(0, w)]))], {
                'clone': '*o = Clone::clone(a)', 'clone_from': 'let mut t = *b; t.clone_from(a); *o = t'}.get(
                    k, '*o = Ord::%s(*a, *b)' % k), spec, A))

        def spec(s, w=w):
            c = s.c
            x, l, h = (c.bit(s[n][0], 0) for n in 'xlh')
            s.panic = c.AND(l, c.NOT(h))
            s.want['o'] = [c.fill(w, c.OR(l, c.AND(x, h)))]
        obs.append(Ob('clamp %s' % m, [ms('x'), ms('l'), ms('h'), ('o', OutR(m, [(0, w)]))], '*o = Ord::clamp(*x, *l, *h)', spec, A))
    return obs


from streams import p25, p26     # noqa: E402

# ------------------------------------------------------------ P31 no undefined behaviour in safe operations
def p31():
    """every obligation above whose use needs no `unsafe`, without its precondition: only undefined behaviour is decided"""
    obs = []
    seen = set()
    for pid in sorted(GENS):
        if pid in ('P31', 'P26'):
            continue
        for o in GENS[pid]():
            n = re.match(r'Iterator::.* of (\d+) by', o.key)
            if n and int(n.group(1)) not in (0, 1, 3, 8):
                continue
            if 'unsafe' in o.body or 'unsafe' in o.helpers or (o.key, o.body) in seen:
                continue
            seen.add((o.key, o.body))
            n = Ob(o.key, o.args, o.body, o.spec, o.anchor, nanloose=o.nanloose, check=o.check, helpers=o.helpers, cfgs=o.cfgs)
            n.fn = o.fn + '_' + pid
            n.ubonly = True
            obs.append(n)
    return obs


GENS = {'P31': p31, 'P01': p01, 'P02': p02, 'P03': p03, 'P04': p04, 'P05': p05, 'P06': p06, 'P07': p07, 'P08': p08, 'P09': p09,
        'P10': p10, 'P11': p11, 'P12': p12, 'P13': p13, 'P14': p14, 'P15': p15, 'P16': p16, 'P17': p17, 'P18': p18,
        'P19': p19, 'P20': p20, 'P21': p21, 'P22': p22, 'P23': p23, 'P24': p24, 'P25': p25, 'P26': p26, 'P27': p27, 'P28': p28, 'P33': p33}

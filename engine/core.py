"""Obligations: one public operation on one vector type.

An obligation couples a Rust probe wrapper with a specification written as
lane terms over the same inputs.  `decide` runs the dataflow analysis on the
wrapper's IR and compares canonical terms.
"""
import json
import os
import random
import re
import time
import traceback
from term import Ctx, Sampler, TRUE, FALSE, Budget, _h
from llir import Module, Int, Type
from flow import Flow, Ptr, PtrIte, Obj, Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))
CAT = json.load(open(os.path.join(HERE, 'catalog.json')))


class V:
    """a vector type of the frozen catalogue"""

    def __init__(self, name, d, ptr_elem='u32'):
        self.name = name
        self.cls = {'const_p': 'p', 'mut_p': 'p'}.get(d['cls'], d['cls'])
        self.mut = d['cls'] == 'mut_p'
        self.n = d['n']
        self.elem = d['elem']
        self.rust = name
        if self.cls == 'p':
            self.elem = ('*mut ' if self.mut else '*const ') + ptr_elem
            self.to = ptr_elem
            self.rust = '%s<%s>' % (name, ptr_elem)
            self.w = 64
            self.mask, self.us, self.is_ = d['mask']
        else:
            m = re.search(r'(\d+|size)$', self.elem)
            self.w = 64 if m.group(1) == 'size' else int(m.group(1))
            self.mask = d['mask'][0] if d['mask'] else name
            self.bm = d['extra'][1] if self.cls != 'f' else None
        self.frm = d['frm']
        self.bytes = self.n * self.w // 8

    @property
    def scalar(self):
        """element type as the API takes it"""
        return 'bool' if self.cls == 'm' else self.elem

    def __repr__(self):
        return self.name if self.cls != 'p' or self.to == 'u32' else '%s of %s' % (self.name, self.to)


TYPES = {k: V(k, v) for k, v in CAT['types'].items()}
ALL = [TYPES[k] for k in sorted(TYPES, key=lambda k: (CAT['types'][k]['n'], k))]
IUF = [t for t in ALL if t.cls in 'iuf']
IU = [t for t in ALL if t.cls in 'iu']
FL = [t for t in ALL if t.cls == 'f']
MK = [t for t in ALL if t.cls == 'm']
PT = [t for t in ALL if t.cls == 'p']
# pointer vectors are generic: the same obligations for pointees of no, odd and large size
PTX = PT + [V(t.name, CAT['types'][t.name], e) for t in PT for e in ('()', '[u8; 3]', '[u64; 0x1_0000_0001]')]
ALLP = ALL + PTX[len(PT):]
NP = [t for t in ALL if t.cls != 'p']


# ----------------------------------------------------------------- arguments
class In:
    """&V"""

    def __init__(self, v):
        self.v = v

    def rust(self):
        return '&' + self.v.rust


class Out:
    """&mut V"""

    def __init__(self, v):
        self.v = v
        self.fields = [(i * v.w // 8, v.w) for i in range(v.n)]
        self.rty = v.rust

    def rust(self):
        return '&mut ' + self.rty


class OutR(Out):
    """&mut of an arbitrary type with given fields (byte offset, bits)"""

    def __init__(self, rty, fields):
        self.rty = rty
        self.fields = fields


class InOut(Out):
    pass


class InR:
    """& of an arbitrary aggregate: fields (offset, bits, isbool)"""

    def __init__(self, rty, fields, mask=False, boolbyte=False):
        self.rty = rty
        self.fields = fields
        self.mask = mask
        self.boolbyte = boolbyte

    def rust(self):
        return '&' + self.rty


class Sc:
    """scalar by value; kind: int/float/bool/mask/ptr"""

    def __init__(self, rty, w, kind='int'):
        self.rty, self.w, self.kind = rty, w, kind

    def rust(self):
        return self.rty


class Sl:
    """slice; elements of w bits"""

    def __init__(self, ety, w, mut=False, mask=False):
        self.ety, self.w, self.mut, self.mask = ety, w, mut, mask

    def rust(self):
        return '&%s[%s]' % ('mut ' if self.mut else '', self.ety)


class Opq:
    """opaque reference (formatter, hasher)"""

    def __init__(self, rty):
        self.rty = rty

    def rust(self):
        return self.rty


def elem_sc(v):
    """by-value element parameter of v as its API takes it"""
    if v.cls == 'm':
        return Sc('bool', 1, 'bool')
    return Sc(v.elem, v.w, {'f': 'float', 'p': 'ptr'}.get(v.cls, 'int'))


def OutE(v):
    """output of one element (bool for masks)"""
    return OutR('bool', [(0, 8)]) if v.cls == 'm' else OutR(v.elem, [(0, v.w)])


OutB = lambda: OutR('bool', [(0, 8)])


class Ob:
    __slots__ = ('key', 'args', 'body', 'spec', 'pre', 'fn', 'generic', 'nanloose', 'anchor', 'poisonok', 'check',
                 'post', 'helpers', 'cfgs', 'ubonly')

    def __init__(self, key, args, body, spec, anchor='', nanloose=False, poisonok=False, check=None, helpers='',
                 cfgs=None):
        self.key = key              # human-readable operation identity
        self.args = args            # list of (name, arg)
        self.body = body
        self.spec = spec            # fn(S) -> None, fills S.want / S.panic / S.pre
        self.fn = 'h_' + re.sub(r'[^a-zA-Z0-9_]', '_', key)
        self.anchor = anchor
        self.nanloose = nanloose
        self.poisonok = poisonok
        self.check = check
        self.helpers = helpers
        self.cfgs = cfgs
        self.ubonly = False         # decide only: no undefined behaviour, for any input at all

    def rust(self):
        ps = ', '.join('%s: %s' % (n, a.rust()) for n, a in self.args)
        return '#[no_mangle] pub fn %s(%s) { %s }\n' % (self.fn, ps, self.body)


class S:
    """spec-side view of one obligation"""

    def __init__(self, c):
        self.c = c
        self.i = {}           # inputs
        self.want = {}        # out name -> list of terms
        self.panic = FALSE
        self.pre = TRUE
        self.events = None
        self.sl_want = {}     # slice name -> list of element terms written from index 0
        self.fl = None

    def __getitem__(self, k):
        return self.i[k]


class Verdict:
    __slots__ = ('ob', 'cfg', 'status', 'detail', 'cmp', 'insts', 'witness', 'secs', 'kinds')

    def __init__(self, ob, cfg):
        self.ob, self.cfg = ob, cfg
        self.kinds = ()
        self.status, self.detail, self.cmp, self.insts, self.witness = None, '', 0, 0, None
        self.secs = 0.0


def order_vars(c, ob):
    """decision-diagram order: index bits first, then mask lanes interleaved"""
    masks = []
    for name, a in ob.args:
        if isinstance(a, (In, InOut)) and a.v.cls == 'm':
            masks.append((name, a.v.n))
        elif isinstance(a, InR) and (a.mask or a.boolbyte):
            masks.append((name, len(a.fields)))
    if not masks:
        return
    for name, a in ob.args:
        if isinstance(a, Sc) and a.kind == 'int' and a.w > 1:
            t = c.v(a.w, name)
            for i in range(a.w):
                c.var(('bit', t, i))
        elif isinstance(a, In) and name == 'i':
            for k in range(a.v.n):
                t = c.v(a.v.w, '%s[%d]' % (name, k))
                for i in range(a.v.w):
                    c.var(('bit', t, i))
    for k in range(max(n for _, n in masks)):
        for name, n in masks:
            if k < n:
                c.var(('in', '%s[%d]' % (name, k)))


def setup_args(fl, c, ob, params):
    """LLVM-level arguments and spec-level inputs"""
    s = S(c)
    s.fl = fl
    llargs = []
    pi = 0
    outs = []
    order_vars(c, ob)
    for name, a in ob.args:
        ty, nm, at = params[pi]
        al = at.get('align', 1)
        if isinstance(a, In) or isinstance(a, InR) or isinstance(a, InOut):
            if isinstance(a, InR):
                fields, mask = a.fields, a.mask
                bb = a.boolbyte
            else:
                v = a.v
                fields, mask = [(i * v.w // 8, v.w) for i in range(v.n)], v.cls == 'm'
                bb = False
            lanes = []
            segs = {}
            for k, (off, w) in enumerate(fields):
                if mask:
                    t = c.fill(w, c.var(('in', '%s[%d]' % (name, k))))
                elif bb:
                    t = c.zext(c.fill(1, c.var(('in', '%s[%d]' % (name, k)))), w)
                else:
                    t = c.v(w, '%s[%d]' % (name, k))
                lanes.append(t)
                segs[off] = (w, t)
            size = max([o + w // 8 for o, w in fields] or [0])
            fl.objs[name] = Obj(name, size, segs, al, 'in')
            s.i[name] = lanes
            llargs.append(Ptr(name, c.const(64, 0)))
            if isinstance(a, InOut):
                outs.append((name, a.fields))
            pi += 1
        elif isinstance(a, Out):
            segs = {}
            for k, (off, w) in enumerate(a.fields):
                segs[off] = (w, c.op('uninit:%s[%d]' % (name, k), w))
            size = max(o + w // 8 for o, w in a.fields)
            fl.objs[name] = Obj(name, size, segs, al, 'out')
            outs.append((name, a.fields))
            llargs.append(Ptr(name, c.const(64, 0)))
            pi += 1
        elif isinstance(a, Sc):
            if a.kind == 'bool':
                t = c.fill(1, c.var(('in', name)))
            elif a.kind == 'mask':
                t = c.fill(a.w, c.var(('in', name)))
            else:
                t = c.v(a.w, name)
            s.i[name] = t
            if ty.k == 'int' and ty.a != a.w:
                t = c.zext(t, ty.a)
            llargs.append(t)
            pi += 1
        elif isinstance(a, Sl):
            es = a.w // 8

            def init(off, name=name, es=es, w=a.w, mask=a.mask):
                k = off // es
                nm2 = '%s[%d]' % (name, k)
                t = c.fill(w, c.var(('in', nm2))) if mask else c.v(w, nm2)
                return k * es, w, t
            o = Obj(name, None, init, al, 'slice')
            ln = c.v(64, name + '.len')
            o.dyn = (ln, es)
            fl.objs[name] = o
            s.i[name] = lambda k, init=init, es=es: init(k * es)[2]
            s.i[name + '.len'] = ln
            s.i[name + '.addr'] = fl.addr(name)
            llargs.append(Ptr(name, c.const(64, 0)))
            llargs.append(ln)
            pi += 2
        elif isinstance(a, Opq):
            fl.objs[name] = Obj(name, None, None, al, 'opaque')
            llargs.append(Ptr(name, c.const(64, 0)))
            pi += 1
    return s, llargs, outs


def decide(mod, ob, cfg, budget_s=20.0):
    vd = Verdict(ob, cfg)
    t0 = time.time()
    try:
        _decide(mod, ob, cfg, vd, t0 + budget_s)
    except Unsupported as e:
        vd.status, vd.detail = 'undecided', 'unsupported construct: %s' % e
    except Budget as e:
        vd.status, vd.detail = 'undecided', 'budget: %s' % e
    except RecursionError:
        vd.status, vd.detail = 'undecided', 'recursion'
    except Exception as e:      # the engine met something it was not built for: no verdict
        vd.status, vd.detail = 'undecided', 'engine: %r at %s' % (e, traceback.format_exc().strip().split('\n')[-3].strip())
    vd.secs = time.time() - t0
    return vd


def _decide(mod, ob, cfg, vd, deadline):
    f = mod.funcs.get(ob.fn)
    if f is None or f.decl:
        # identical wrappers may be merged into an alias
        raise Unsupported('wrapper %s not in IR' % ob.fn)
    c = Ctx(600000)
    fl = Flow(mod, c)
    fl.raw = cfg == 'raw'
    params = mod.parse_header(f)
    s, args, outs = setup_args(fl, c, ob, params)
    if ob.check is not None and hasattr(ob.check, 'prepare'):
        ob.check.prepare(fl, s)
    rc, rv, mem = fl.run(ob.fn, args, TRUE, {})
    vd.insts = fl.ninsts
    if ob.ubonly:
        return ub_only(c, fl, s, ob, rc, mem, outs, vd, deadline)
    ob.spec(s)
    pre = s.pre
    probs = []          # (what, boolean diff diagram) or (what, got, want, cond)
    # panic behaviour
    p1 = c.AND(pre, fl.panic)
    p2 = c.AND(pre, s.panic)
    vd.cmp += 1
    if p1 != p2:
        probs.append(('panic', c.XOR(p1, p2), None, None))
    ok = c.AND(pre, c.NOT(s.panic))
    # undefined behaviour on inputs that satisfy the precondition
    for cond, what in fl.ub:
        if ob.poisonok and what.startswith('poison:') or what.startswith('poison:'):
            continue
        b = c.AND(pre, cond)
        vd.cmp += 1
        if b != FALSE:
            probs.append(('undefined behaviour (%s)' % what, b, None, None))
    for name, fields in outs:
        want = s.want.get(name)
        if want is None:
            raise AssertionError('spec of %s gives no %s' % (ob.key, name))
        assert len(want) == len(fields), (ob.key, len(want), len(fields))
        for k, (off, w) in enumerate(fields):
            g = fl.load_bits(mem, name, off, w, FALSE) if rc != FALSE else None
            if g is None:
                continue
            if hasattr(want[k], 'accept'):
                # a set of acceptable forms
                vd.cmp += 1
                if not want[k].accept(c, g):
                    probs.append(('%s[%d]' % (name, k), want[k], g, None))
                continue
            wt = want[k]
            if c.w(wt) < w:
                wt = c.zext(wt, w)
            vd.cmp += 1
            if not same(c, g, wt, ok):
                probs.append(('%s[%d]' % (name, k), ok, g, wt))
    # inputs behind shared references stay untouched
    for name, a in ob.args:
        if isinstance(a, (In, InR)) and not isinstance(a, Out) and name in mem:
            init = fl.objs[name].init
            if mem[name] is not init and mem[name] != init:
                for off, (w, t) in init.items():
                    g = fl.load_bits(mem, name, off, w, FALSE)
                    if not same(c, g, t, ok):
                        probs.append(('input %s modified' % name, ok, g, t))
        if isinstance(a, Sl):
            es = a.w // 8
            want = s.sl_want.get(name, [])
            segs = dict(mem.get(name, {}))
            for k, wt in enumerate(want):
                g = fl.load_bits(mem, name, k * es, a.w, FALSE)
                vd.cmp += 1
                if not same(c, g, wt, ok):
                    probs.append(('%s[%d]' % (name, k), ok, g, wt))
            for off, (w, t) in segs.items():
                if 0 <= off and off + w // 8 <= len(want) * es:
                    continue
                for b in range(w // 8):
                    if 0 <= off + b < len(want) * es:
                        continue
                    so, ww, it = fl.objs[name].init(off + b)
                    g = c.slice(t, b * 8, 8)
                    i0 = c.slice(it, (off + b - so) * 8, 8)
                    # writes are compared whether or not the call panics
                    if g != i0:
                        probs.append(('%s byte %d written' % (name, off + b), pre, g, i0))
                        break
        if isinstance(a, Sl):
            # a call that panics has written nothing
            for pc, pm in fl.panics:
                for off, (w, t) in pm.get(name, {}).items():
                    it = [fl.objs[name].init(off + b) for b in range(w // 8)]
                    i0 = c.cat([c.slice(x[2], (off + b - x[0]) * 8, 8) for b, x in enumerate(it)])
                    vd.cmp += 1
                    pp = c.AND(pre, pc)
                    if pp != FALSE and not same(c, t, i0, pp):
                        probs.append(('%s byte %d at a panic' % (name, off), pp, t, i0))
    if ob.check is not None:
        probs += ob.check(fl, s, rc, rv, mem, ok, vd)
    if not probs:
        vd.status = 'ok'
        return
    # look for a concrete witness of a difference
    names = input_names(c, fl, probs)
    for what, b, g, wt in probs:
        w = None
        if callable(b):
            w = {}
        elif hasattr(b, 'accept'):
            w = b.refute(c, g, ob, deadline)
        else:
            w = witness(c, fl, s, ob, what, b, g, wt, pre, deadline)
        if w is not None:
            vd.status = 'violation'
            vd.witness = w
            exp = ''
            if callable(b):
                pass
            elif g is not None and wt is not None:
                exp = '\n  computed: %s\n  required: %s' % (c.pretty(g, 7)[:900], c.pretty(wt, 7)[:900])
            elif g is not None:
                exp = '\n  computed: %s' % c.pretty(g, 7)[:900]
            else:
                exp = '\n  condition: %s' % c.bpretty(b, 8)[:900]
            vd.detail = '%s differs' % what + exp
            return
    what, b, g, wt = probs[0]
    vd.status = 'undecided'
    vd.detail = '%s: forms differ, no witness' % what
    if g is not None and wt is not None:
        vd.detail += ' | %s | %s' % (c.pretty(g, 6)[:400], c.pretty(wt, 6)[:400])
    elif g is None:
        vd.detail += ' | ' + c.bpretty(b, 8)[:300]


def poison_cond(c, t, memo):
    """condition (over-approximated) under which a term is indeterminate"""
    r = memo.get(t)
    if r is not None:
        return r
    n = c.n[t]
    if n[0] in ('c', 'v'):
        r = FALSE
    elif n[0] == 'op' and n[2] in ('poison', 'fptosi', 'fptoui'):
        r = TRUE
    elif n[0] == 'ite':
        hi, lo = poison_cond(c, n[3], memo), poison_cond(c, n[4], memo)
        if hi == FALSE and lo == FALSE:
            r = FALSE
        else:
            g = c.bnode(n[2], TRUE, FALSE)
            r = c.OR(c.AND(g, hi), c.AND(c.NOT(g), lo))
        r = c.OR(r, poison_b(c, c.bnode(n[2], TRUE, FALSE), memo))
    elif n[0] == 'fill':
        r = poison_b(c, n[2], memo)
    elif n[0] == 'bw':
        r = poison_b(c, n[2], memo)
    elif n[0] == 'cat':
        r = FALSE
        for x in n[2]:
            r = c.OR(r, poison_cond(c, x, memo))
    elif n[0] == 'ext':
        r = poison_cond(c, n[2], memo)
    elif n[0] == 'poly':
        r = FALSE
        for _, m in n[3]:
            for x in m:
                r = c.OR(r, poison_cond(c, x, memo))
    else:
        r = FALSE
        for x in n[3:]:
            if isinstance(x, int):
                r = c.OR(r, poison_cond(c, x, memo))
    memo[t] = r
    return r


def poison_b(c, f, memo):
    """the same for a decision diagram: a variable that decides it is indeterminate"""
    if f < 2:
        return FALSE
    r = memo.get(('b', f))
    if r is not None:
        return r
    v, hi, lo = c.b[f]
    key = c.vars[v]
    q = memo.get(('var', v))
    if q is None:
        q = memo[('var', v)] = FALSE
        if key == ('in', 'poison'):
            q = TRUE
        elif key[0] in ('bw', 'bit'):
            q = poison_cond(c, key[1], memo)
        else:
            ys = {'eq': key[1:3], 'ult': key[1:3], 'slt': key[1:3], 'feq': key[1:3], 'flt': key[1:3],
                  'ovf': key[2:4], 'fprange': key[4:5]}.get(key[0], ())
            for y in ys:
                q = c.OR(q, poison_cond(c, y, memo))
        memo[('var', v)] = q
    a, b = poison_b(c, hi, memo), poison_b(c, lo, memo)
    if q == FALSE and a == FALSE and b == FALSE:
        r = FALSE
    elif q == FALSE:
        g = c.bnode(v, TRUE, FALSE)
        r = c.OR(c.AND(g, a), c.AND(c.NOT(g), b))
    else:
        r = c.OR(c.AND(q, c.XOR(hi, lo)), c.OR(a, b))
    memo[('b', f)] = r
    return r


def ub_only(c, fl, s, ob, rc, mem, outs, vd, deadline):
    """no undefined behaviour for any input: neither an undefined step on a path that does not panic first, nor an
    indeterminate value in a result"""
    ok = c.NOT(fl.panic)
    probs = []
    memo = {}
    for cond, what in fl.ub:
        vd.cmp += 1
        if what.startswith('poison:'):
            continue
        b = cond
        if b != FALSE:
            probs.append((what, b, None, None))
    for name, fields in outs:
        for k, (off, w) in enumerate(fields):
            if rc == FALSE:
                continue
            vd.cmp += 1
            g = fl.load_bits(mem, name, off, w, FALSE)
            b = c.AND(ok, poison_cond(c, g, memo))
            if b != FALSE:
                probs.append(('indeterminate value in %s[%d]' % (name, k), b, g, 'poison'))
    for name, a in ob.args:
        if isinstance(a, Sl):
            for off, (w, t) in dict(mem.get(name, {})).items():
                vd.cmp += 1
                b = c.AND(ok, poison_cond(c, t, memo))
                if b != FALSE:
                    probs.append(('indeterminate value in %s byte %d' % (name, off), b, t, 'poison'))
    if not probs:
        vd.status = 'ok'
        return
    seen = set()
    found = []
    for what, b, g, wt in probs:
        kind = re.sub(r'\d+\]? *$', '', what)
        kind = re.sub(r'\[\d*$', '', kind)
        if kind in seen:
            continue
        w = witness(c, fl, s, ob, what, b, g, wt, TRUE, deadline)
        if w is not None:
            seen.add(kind)
            found.append((kind, what, w, b, g))
    if found:
        vd.status = 'violation'
        vd.witness = found[0][2]
        vd.kinds = [k for k, _, _, _, _ in found]
        vd.detail = '; '.join('%s' % w for _, w, _, _, _ in found)
        return
    vd.status = 'undecided'
    vd.detail = '%s: no witness' % probs[0][0]


def same(c, g, wt, ok):
    if g == wt:
        return True
    if ok == TRUE:
        return False
    return c.ite(ok, g, wt) == wt


def input_names(c, fl, probs):
    return None


# ------------------------------------------------------------------ witness
def corner(w, rnd, k=None):
    full = (1 << w) - 1
    k = rnd.random() if k is None else k
    if k < 0.45:
        return rnd.choice([0, 1, full, full >> 1, (full >> 1) + 1, 2, 3, 5, w - 1, w, full - 1, (full >> 1) - 1,
                           (full >> 1) + 2, 0x55 * (full // 255) if w >= 8 else 1]) & full
    if k < 0.6 and w in (32, 64):
        f32 = [0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x80000000, 0x40490fdb, 0x4f000000,
               0x00000001, 0x7f7fffff, 0x42f60000, 0xc2f60000, 0x3fc00000, 0xffc00001, 0x4b800001, 0x7f800001]
        f64 = [0x3ff0000000000000, 0xbff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000,
               0x8000000000000000, 0x400921fb54442d18, 0x41e0000000000000, 1, 0x7fefffffffffffff, 0x405ec00000000000,
               0xc05ec00000000000, 0x3ff8000000000000, 0xfff8000000000001, 0x7ff0000000000001]
        return rnd.choice(f32 if w == 32 else f64)
    if k < 0.66 and w in (32, 64):
        # ordinary magnitudes with arbitrary digits: roundings show
        m, bias = (23, 127) if w == 32 else (52, 1023)
        if rnd.random() < .3:
            from term import valtof
            return max(0, valtof(rnd.choice((1, 2, 4, .5, -1)) * float(rnd.choice((rnd.randrange(1, 300), 1 << rnd.randrange(m))) - rnd.choice((0, 1, 2))), w) + rnd.choice((-1, 1, 0)))
        return rnd.getrandbits(1) << (w - 1) | (bias + rnd.randrange(-4, 5)) << m | rnd.getrandbits(m)
    if k < 0.75:
        return rnd.getrandbits(w) if w else 0
    if k < 0.85:
        return 1 << rnd.randrange(w)
    if k < 0.93 and w > 6:
        return rnd.randrange(0, min(100, full))
    return (full ^ (1 << rnd.randrange(w)))


def pathto(c, f, rnd, want=1):
    """a random path of diagram f to terminal `want`: {var: bool}"""
    memo = {}

    def reach(x):
        if x < 2:
            return x == want
        return True      # reduced: every inner node reaches both terminals
    out = {}
    while f > 1:
        v, hi, lo = c.b[f]
        ch = [(1, hi), (0, lo)]
        rnd.shuffle(ch)
        for bit, g in ch:
            if reach(g):
                out[v] = bit
                f = g
                break
        else:
            return None
    return out if f == want else None


def diffcond(c, g, wt, limit=2000):
    """paths (partial assignments) under which two ite-trees end in different leaves"""
    out = []
    cnt = [0]
    rnd = random.Random(99)

    def go(a, b, asg):
        if a == b or len(out) > 40 or cnt[0] > limit:
            return
        cnt[0] += 1
        na, nb = c.n[a], c.n[b]
        va = na[2] if na[0] == 'ite' else 1 << 60
        vb = nb[2] if nb[0] == 'ite' else 1 << 60
        if va == vb == 1 << 60:
            if na[0] == 'cat' or nb[0] == 'cat':
                lo = 0
                for hi in c.cuts(a, b):
                    go(c.slice(a, lo, hi - lo), c.slice(b, lo, hi - lo), asg)
                    lo = hi
                return
            if 'fill' in (na[0], nb[0]) and c.n[a][1] and {na[0], nb[0]} <= {'fill', 'c'}:
                d = c.XOR(*[x[2] if x[0] == 'fill' else x[2] & 1 for x in (na, nb)])
                for _ in range(6):
                    q = pathto(c, d, rnd)
                    if q is not None:
                        out.append({**{'v%d' % v: (v, bit) for v, bit in q.items()}, **asg})
                return
            out.append(asg)
            return
        v = min(va, vb)
        for bit in (1, 0):
            x = (na[3] if bit else na[4]) if va == v else a
            y = (nb[3] if bit else nb[4]) if vb == v else b
            go(x, y, dict(asg, **{'v%d' % v: (v, bit)}))
    go(g, wt, {})
    return [{v: b for v, b in x.values()} for x in out]


def witness(c, fl, s, ob, what, b, g, wt, pre, deadline):
    rnd = random.Random(12345)
    nan = ob.nanloose
    tries = 1200
    paths = []
    salted = wt == 'poison'
    if salted:
        wt = c.const(c.w(g), 0)
    common = opnames(c, g) & (opnames(c, wt) if not salted else opnames(c, g)) if g is not None else set()
    if g is None:
        for _ in range(60):
            p = pathto(c, b, rnd)
            if p:
                paths.append(p)
    else:
        for p in diffcond(c, g, wt):
            paths.append(p)
    roots = decisions(c, g, wt) if g is not None else []
    kpool = constants(c, [x for x in (g, wt) if x is not None], [x for x in (b, pre) if x is not None and not callable(x)])
    for it in range(tries):
        if it > 12 and time.time() > deadline:
            return None
        forced = {}
        bits = {}
        shared = it % 4 == 3
        pool = [None] * 0
        if roots and it % 5 in (2, 4):
            p = {}
            for r in rnd.sample(roots, min(len(roots), rnd.choice((1, 1, 2, 3)))):
                for v, bit in leafpath(c, r, rnd).items():
                    p.setdefault(v, bit)
            if b is not None and b > 1:
                p = {**(pathto(c, b, rnd) or {}), **p}
        elif paths and it % 2 == 0:
            p = paths[(it // 2) % len(paths)]
            if b is not None and g is not None and b > 1:
                q = pathto(c, b, rnd)
                if q:
                    p = {**q, **p}
        elif b is not None and b > 1 and it % 4 != 1:
            p = pathto(c, b, rnd) or {}
        else:
            p = {}
        force_path(c, p, forced, bits, rnd)
        useconst = it % 3 == 1
        asg = {}
        base = {}

        def assign(key, w):
            r = asg.get((key, w))
            if r is None:
                if key in forced and w == 1:
                    r = forced[key]
                else:
                    if shared and isinstance(key, str) and '[' in key and rnd.random() < .7:
                        kk = (key[key.index('['):], w)
                        if kk not in base:
                            base[kk] = corner(w, rnd)
                        r = base[kk]
                    elif isinstance(key, str) and key.startswith('&'):
                        r = rnd.choice([16, 32, 64, rnd.getrandbits(12), rnd.getrandbits(20)])
                    elif isinstance(key, str) and key.endswith('.len'):
                        r = rnd.randrange(0, 140)
                    elif it == 0:
                        r = (_h(key) % 97 + 1)
                    elif useconst and w in kpool and rnd.random() < .5:
                        r = rnd.choice(kpool[w])
                    else:
                        r = corner(w, rnd, .62 if it % 6 == 5 else None)
                    if nan == 'minmax' and w in (32, 64) and isnanv(r, w):
                        r |= 1 << (22 if w == 32 else 51)
                    m, x = bits.get(key, (0, 0))
                    r = (r & ~m | x) & ((1 << w) - 1)
                asg[(key, w)] = r
            return r
        sm = Sampler(c, assign)
        try:
            if not sm.bdd(pre):
                continue
            if g is None:
                if sm.bdd(b) and not sm.opaque:
                    return dump(c, sm, asg)
                continue
            if not sm.bdd(b):
                continue
            if salted:
                s2 = Sampler(c, lambda k, w: assign(k, w) ^ 1 if k == 'poison' else assign(k, w))
                sm.salt, s2.salt = (1,), (2,)
                x, y = sm.term(g), s2.term(g)
            else:
                x, y = sm.term(g), sm.term(wt)
        except (RecursionError, ValueError):
            continue
        if len(sm.opaque) and sm.opaque - common:
            continue
        if not equalish(x, y, c.w(g), nan):
            d = dump(c, sm, asg)
            if not salted:
                d['computed'] = hex(x)
                d['required'] = hex(y)
            return d
    return None


def nodes(c, t, limit=40000):
    """nodes below a term -> does a non-selection node point to it"""
    seen, st = {}, [(('t', t), True)]
    while st and len(seen) < limit:
        x, top = st.pop()
        if x in seen:
            seen[x] = seen[x] or top
            continue
        seen[x] = top
        k, i = x
        if k == 'b':
            if i > 1:
                v, hi, lo = c.b[i]
                st += [(('b', hi), False), (('b', lo), False), (('v', v), False)]
            continue
        if k == 'v':
            key = c.vars[i]
            if key[0] in ('bw', 'bit'):
                st.append((('t', key[1]), True))
            elif key[0] in ('eq', 'ult', 'slt', 'feq', 'flt'):
                st += [(('t', key[1]), True), (('t', key[2]), True)]
            continue
        n = c.n[i]
        if n[0] == 'op':
            st += [(('t', y), True) for y in n[3:] if isinstance(y, int)]
        elif n[0] == 'cat':
            st += [(('t', y), True) for y in n[2]]
        elif n[0] == 'ext':
            st.append((('t', n[2]), True))
        elif n[0] in ('fill', 'bw'):
            st.append((('b', n[2]), True))
        elif n[0] == 'ite':
            st += [(('v', n[2]), False), (('t', n[3]), False), (('t', n[4]), False)]
        elif n[0] == 'poly':
            st += [(('t', y), True) for _, m in n[3] for y in m]
    return seen


def decisions(c, g, wt):
    """selections and conditions that occur in one of two terms only"""
    a, b = nodes(c, g), nodes(c, wt)
    out = []
    for x, y in ((a, b), (b, a)):
        for k, top in x.items():
            if top and k not in y and (k[0] == 'b' and k[1] > 1 or k[0] == 't' and c.n[k[1]][0] == 'ite'):
                out.append(k)
    out.sort()
    return out[:300]


def leafpath(c, root, rnd):
    """a path of a diagram to a leaf chosen uniformly among its distinct leaves"""
    k, r = root

    def kids(x):
        if k == 'b':
            return None if x < 2 else c.b[x]
        n = c.n[x]
        return (n[2], n[3], n[4]) if n[0] == 'ite' else None
    parents, seen, st, leaves = {}, {r}, [r], []
    while st and len(seen) < 6000:
        x = st.pop()
        q = kids(x)
        if q is None:
            leaves.append(x)
            continue
        v, hi, lo = q
        for bit, y in ((1, hi), (0, lo)):
            parents.setdefault(y, []).append((x, v, bit))
            if y not in seen:
                seen.add(y)
                st.append(y)
    if not leaves:
        return {}
    x = rnd.choice(leaves)
    out = {}
    while x != r:
        x, v, bit = rnd.choice(parents[x])
        out[v] = bit
    return out


def constants(c, ts, bs):
    """constants that occur in the compared terms, and their neighbours: {width: [values]}"""
    out, seen, st = {}, set(), [('t', t) for t in ts] + [('b', b) for b in bs]

    def put(w, v):
        if w:
            d = out.setdefault(w, set())
            if len(d) < 400:
                for k in (-1, 0, 1):
                    d.add((v + k) & ((1 << w) - 1))
    while st and len(seen) < 20000:
        k, x = st.pop()
        if (k, x) in seen:
            continue
        seen.add((k, x))
        if k == 'b':
            if x > 1:
                v, hi, lo = c.b[x]
                st += [('b', hi), ('b', lo), ('v', v)]
            continue
        if k == 'v':
            key = c.vars[x]
            if key[0] in ('bw', 'bit'):
                st.append(('t', key[1]))
            elif key[0] in ('eq', 'ult', 'slt', 'feq', 'flt'):
                st += [('t', key[1]), ('t', key[2])]
            continue
        n = c.n[x]
        if n[0] == 'c':
            put(n[1], n[2])
        elif n[0] == 'op':
            st += [('t', y) for y in n[3:] if isinstance(y, int)]
        elif n[0] == 'cat':
            st += [('t', y) for y in n[2]]
        elif n[0] == 'ext':
            st.append(('t', n[2]))
        elif n[0] in ('fill', 'bw'):
            st.append(('b', n[2]))
        elif n[0] == 'ite':
            st += [('v', n[2]), ('t', n[3]), ('t', n[4])]
        elif n[0] == 'poly':
            put(n[1], n[2])
            put(n[1], -n[2])
            st += [('t', y) for _, m in n[3] for y in m]
    return {w: sorted(d) for w, d in out.items()}


def force_term(c, t, val, forced, bits):
    """choose input bits so that t takes the value, where t is plain wiring of an input"""
    n = c.n[t]
    w = n[1]
    val &= (1 << w) - 1
    if n[0] == 'v':
        bits[n[2]] = ((1 << w) - 1, val)
    elif n[0] == 'ext' and c.n[n[2]][0] == 'v':
        k = c.n[n[2]][2]
        m, x = bits.get(k, (0, 0))
        mm = ((1 << w) - 1) << n[3]
        bits[k] = (m | mm, x & ~mm | val << n[3])
    elif n[0] == 'cat':
        pos = 0
        for p in n[2]:
            force_term(c, p, val >> pos, forced, bits)
            pos += c.w(p)
    elif n[0] == 'poly':
        ms = [(i, co, m[0]) for i, (co, m) in enumerate(n[3]) if len(m) == 1 and co & 1]
        atoms = [a for _, m in n[3] for a in m]
        if any(c.n[a][0] != 'v' for a in atoms) and len(atoms) > 1:
            return
        for i, co, a in ms:
            if atoms.count(a) > 1:
                continue
            env = {}
            for x in set(atoms) - {a}:
                m, v = bits.get(c.n[x][2], (0, 0))
                env[x] = v & ((1 << w) - 1)
                bits[c.n[x][2]] = ((1 << w) - 1, env[x])
            rest = n[2]
            for j, (cj, mj) in enumerate(n[3]):
                if j != i:
                    y = cj
                    for x in mj:
                        y *= env[x]
                    rest += y
            force_term(c, a, (val - rest) * pow(co, -1, 1 << w), forced, bits)
            return


def force_path(c, p, forced, bits, rnd):
    for v, bit in p.items():
        k = c.vars[v]
        if k[0] == 'in':
            forced[k[1]] = bit
        elif k[0] == 'bit' and c.n[k[1]][0] == 'v':
            m, x = bits.get(c.n[k[1]][2], (0, 0))
            bits[c.n[k[1]][2]] = (m | 1 << k[2], x & ~(1 << k[2]) | bit << k[2])
        elif k[0] in ('feq', 'flt') and c.w(k[1]) in (32, 64):
            w = c.w(k[1])
            for i, o in ((1, 2), (2, 1)):
                q = c.isc(k[o])
                if q is None or c.isc(k[i]) is not None:
                    continue
                if k[0] == 'feq':
                    if bit:
                        force_term(c, k[i], q, forced, bits)
                    continue
                # neighbours in the order of the representation
                y = (q + rnd.choice((-1, 0, 1, 1 << (w - 10), -(1 << (w - 10))))) & ((1 << w) - 1)
                force_term(c, k[i], y, forced, bits)
        elif k[0] in ('eq', 'ult', 'slt'):
            a, b = k[1], k[2]
            w = c.w(a)
            full = (1 << w) - 1
            ka, kb = c.isc(a), c.isc(b)
            flip = 1 << (w - 1) if k[0] == 'slt' else 0
            if k[0] == 'eq':
                if not bit:
                    continue
                x = ka if ka is not None else kb if kb is not None else corner(w, rnd)
                y = x
            elif kb is not None:
                q = kb ^ flip
                if bit and q == 0:
                    continue
                x = rnd.choice([q - 1, 0, rnd.randrange(q)] if bit else [q, full, rnd.randint(q, full)]) ^ flip
                y = None
            elif ka is not None:
                q = ka ^ flip
                if bit and q == full:
                    continue
                y = rnd.choice([q + 1, full, rnd.randint(q + 1, full)] if bit else [q, 0, rnd.randint(0, q)]) ^ flip
                x = None
            else:
                lo, hi = sorted((corner(w, rnd) ^ flip, corner(w, rnd) ^ flip))
                if bit and lo == hi:
                    continue
                x, y = (lo ^ flip, hi ^ flip) if bit else (hi ^ flip, lo ^ flip)
            if x is not None and ka is None:
                force_term(c, a, x, forced, bits)
            if y is not None and kb is None:
                force_term(c, b, y, forced, bits)


def opnames(c, t, memo=None):
    out, seen, st = set(), set(), [('t', t)]
    while st:
        k, x = st.pop()
        if (k, x) in seen:
            continue
        seen.add((k, x))
        if k == 'b':
            if x > 1:
                v, hi, lo = c.b[x]
                st += [('b', hi), ('b', lo), ('v', v)]
            continue
        if k == 'v':
            key = c.vars[x]
            if key[0] not in ('in',):
                out.add(key[0])
            if key[0] in ('bw', 'bit'):
                st.append(('t', key[1]))
            elif key[0] in ('eq', 'ult', 'slt', 'feq', 'flt'):
                st += [('t', key[1]), ('t', key[2])]
            continue
        n = c.n[x]
        if n[0] == 'op':
            out.add(n[2])
            st += [('t', y) for y in n[3:] if isinstance(y, int)]
        elif n[0] == 'cat':
            st += [('t', y) for y in n[2]]
        elif n[0] == 'ext':
            st.append(('t', n[2]))
        elif n[0] in ('fill', 'bw'):
            st.append(('b', n[2]))
        elif n[0] == 'ite':
            st += [('v', n[2]), ('t', n[3]), ('t', n[4])]
        elif n[0] == 'poly':
            st += [('t', y) for _, m in n[3] for y in m]
    return out


def equalish(x, y, w, nan):
    if x == y:
        return True
    if nan and w in (32, 64):
        if isnanv(x, w) and isnanv(y, w):
            return True
        if nan == 'minmax' and (x | y) << 1 & ((1 << w) - 1) == 0:
            return True
        if isinstance(nan, tuple):
            from term import ftoval
            a, b = ftoval(x, w), ftoval(y, w)
            if a == b:
                return True
            if a != a or b != b or abs(a) == float('inf') or abs(b) == float('inf'):
                return False
            eps = 2.0 ** -24 if w == 32 else 2.0 ** -53
            tiny = 2.0 ** -149 if w == 32 else 2.0 ** -1074
            return abs(a - b) <= nan[1] * 2 * eps * max(abs(a), abs(b)) + nan[1] * tiny + (nan[2] if len(nan) > 2 else 0)
    return False


def isnanv(x, w):
    e, m = (8, 23) if w == 32 else (11, 52)
    return x >> m & ((1 << e) - 1) == (1 << e) - 1 and x & ((1 << m) - 1) != 0


def dump(c, sm, asg):
    return {str(k[0]): hex(v) for k, v in sorted(asg.items(), key=lambda z: str(z[0]))[:140]}

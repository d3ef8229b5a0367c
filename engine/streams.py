"""Output-stream properties: what a vector feeds to a Hasher (P25) or a
Formatter (P26).

The dataflow analysis treats every call into the sink as an event; the
sequence of events of the operation is compared with the required one.
"""
import random
import re
from term import Ctx, TRUE, FALSE, Sampler
from flow import Flow, Ptr, PtrIte, Unsupported
from core import Ob, In, InR, Opq, OutR, Sc, ALL, ALLP, PTX, IU, FL, MK, PT, TYPES, V, CAT, setup_args, constants, force_path, pathto, corner, dump


def tail(name):
    """symbol without the crate hash"""
    t = re.sub(r'17h[0-9a-f]{16}E(\.llvm\.\d+)?(\.\d+)?$', '', name)
    # Debug of a bool is its Display
    return re.sub(r'^_ZN\d+_\$LT\$bool\$u20\$as\$u20\$core\.\.fmt\.\.(Debug|Display)\$', r'_ZN_$LT$bool$u20$as$u20$core..fmt..Display$', t)


def cint(c, t):
    k = c.isc(t)
    if k is None:
        raise Unsupported('length is not constant')
    return k


def sample_streams(c, conds, evs, tries=120):
    """constant-fold event lists under assignments of the inputs; evs: list of [(cond, item -> concrete)];
    returns an assignment under which the first two differ"""
    rnd = random.Random(4711)
    conds = [x for x in conds if x > 1]
    kpool = constants(c, [], conds)
    for it in range(tries):
        forced, bits, asg = {}, {}, {}
        if conds and it % 3:
            force_path(c, pathto(c, rnd.choice(conds), rnd, it % 2) or {}, forced, bits, rnd)

        def assign(key, w):
            r = asg.get((key, w))
            if r is None:
                if key in forced and w == 1:
                    r = forced[key]
                else:
                    r = rnd.choice(kpool[w]) if it % 4 == 3 and w in kpool and rnd.random() < .5 else corner(w, rnd)
                    m, x = bits.get(key, (0, 0))
                    r = (r & ~m | x) & ((1 << w) - 1)
                asg[key, w] = r
            return r
        sm = Sampler(c, assign)
        a, b = [fold(sm) for fold in evs]
        if sm.opaque:
            continue
        if a != b:
            return dump(c, sm, asg), a, b
    return None


# --------------------------------------------------------------------- hash
class HashCheck:
    def __init__(self, want):
        self.want = want      # fn(s) -> list of byte-multiple terms

    def prepare(self, fl, s):
        self.ev = []

        def on(fl, name, d, args, mem, cond):
            if name != 'ev_write':
                return None
            p = fl.t2ptr(args[0])
            off = fl.c.isc(p.off)
            if off is None:
                raise Unsupported('hash of a symbolic address')
            n = cint(fl.c, args[1])
            self.ev.append((cond, fl.load_bits(mem, p.obj, off, n * 8, cond) if n else None))
            return (None,)
        fl.on_call = on

    def __call__(self, fl, s, rc, rv, mem, ok, vd):
        c = fl.c
        cur = []
        for cond, t in self.ev:
            if t is None:
                continue
            if cond != TRUE:
                if cur and cur[-1][0] != TRUE and c.AND(cur[-1][0], cond) == FALSE and c.w(cur[-1][1]) == c.w(t):
                    cur[-1] = (c.OR(cur[-1][0], cond), c.ite(cond, t, cur[-1][1]))
                    continue
            cur.append((cond, t))
        if any(x != TRUE for x, _ in cur):
            def fold_got(sm):
                out = b''
                for cond, t in cur:
                    if sm.bdd(cond):
                        out += sm.term(t).to_bytes(c.w(t) // 8, 'little')
                return out

            def fold_want(sm):
                t = c.cat(self.want(s))
                return sm.term(t).to_bytes(c.w(t) // 8, 'little')
            r = sample_streams(c, [x for x, _ in cur], [fold_got, fold_want])
            if r:
                return [('hashed bytes %s instead of %s for %s' % (r[1].hex(), r[2].hex(), r[0]), lambda: 0, None, None)]
            raise Unsupported('conditional hashing')
        got = c.cat([t for _, t in cur]) if cur else None
        want = c.cat(self.want(s))
        vd.cmp += c.w(want) // 8
        gw = c.w(got) if got is not None else 0
        if gw != c.w(want):
            return [('number of bytes hashed (%d instead of %d)' % (gw // 8, c.w(want) // 8), ok, None, None)]
        probs = []
        for i in range(0, gw, 64):
            n = min(64, gw - i)
            g, w = c.slice(got, i, n), c.slice(want, i, n)
            if g != w:
                probs.append(('hashed bytes %d..%d' % (i // 8, (i + n) // 8), ok, g, w))
        return probs


HASHER = '''
extern "C" { fn ev_write(p: *const u8, n: usize); }
pub struct ProbeHasher;
impl core::hash::Hasher for ProbeHasher {
    #[inline] fn finish(&self) -> u64 { 0 }
    #[inline] fn write(&mut self, b: &[u8]) { unsafe { ev_write(b.as_ptr(), b.len()) } }
}
'''


def p25():
    obs = []
    body = 'core::hash::Hash::hash(a, &mut ProbeHasher)'
    for v in IU + PTX:
        def want(s, v=v):
            return [s.c.const(64, v.n)] + list(s['a'])
        obs.append(Ob('hash %s' % v, [('a', In(v))], body, lambda s: None,
                      'src/api/minimal/ptr.rs' if v.cls == 'p' else 'src/api/hash.rs', check=HashCheck(want), helpers=HASHER))
        for k in (2, 3):
            def want(s, v=v, k=k):
                return [t for j in range(k) for t in [s.c.const(64, v.n)] + list(s['a'][j * v.n:(j + 1) * v.n])]
            obs.append(Ob('hash_slice %s of %d' % (v, k), [
                ('a', InR('[%s; %d]' % (v.rust, k), [(i * v.w // 8, v.w) for i in range(k * v.n)]))],
                'core::hash::Hash::hash_slice(&a[..], &mut ProbeHasher)', lambda s: None,
                'src/api/minimal/ptr.rs' if v.cls == 'p' else 'src/api/hash.rs', check=HashCheck(want), helpers=HASHER))
    for m, w in (('m8', 8), ('m16', 16), ('m32', 32), ('m64', 64), ('m128', 128), ('msize', 64)):
        for k in (2, 3, 9):
            def want(s, k=k):
                return [s.c.zext(s.c.boolterm(s.c.bit(x, 0)), 8) for x in s['a']]
            obs.append(Ob('hash_slice %s of %d' % (m, k), [
                ('a', InR('[%s; %d]' % (m, k), [(i * w // 8, w) for i in range(k)], mask=True))],
                'core::hash::Hash::hash_slice(&a[..], &mut ProbeHasher)', lambda s: None, 'src/masks.rs',
                check=HashCheck(want), helpers=HASHER))

        def want(s):
            return [s.c.zext(s.c.boolterm(s.c.bit(s['a'][0], 0)), 8)]
        obs.append(Ob('hash %s' % m, [('a', InR(m, [(0, w)], mask=True))], body, lambda s: None, 'src/masks.rs',
                      check=HashCheck(want), helpers=HASHER))
    return obs


# ------------------------------------------------------------------- format
class FmtRun:
    """one analysis of a wrapper with given formatter flags; errors either
    never happen or are symbolic"""

    def __init__(self, fl, flags, symbolic):
        self.fl, self.flags, self.symbolic = fl, flags, symbolic
        self.asked = set()
        self.ev = {'f': [], 'g': []}      # formatter -> [(cond, item)]
        self.errs = {'f': FALSE, 'g': FALSE}
        self.k = 0
        fl.on_call = self.on

    def str_at(self, mem, p, n, cond):
        """constant bytes, or None"""
        fl = self.fl
        p = fl.t2ptr(p)
        off = fl.c.isc(p.off)
        if off is None:
            raise Unsupported('symbolic string address')
        out = bytearray()
        for i in range(n):
            b = fl.c.isc(fl.load_bits(mem, p.obj, off + i, 8, cond))
            if b is None:
                raise Unsupported('string is not constant')
            out.append(b)
        return bytes(out)

    def word(self, mem, p, off, cond):
        fl = self.fl
        k = fl.c.isc(p.off)
        if k is None:
            raise Unsupported('symbolic address')
        return fl.load_bits(mem, p.obj, k + off, 64, cond)

    def deref(self, name, pos):
        f = self.fl.mod.funcs.get(name)
        if f is None:
            raise Unsupported('unknown function ' + name)
        ps = self.fl.mod.parse_header(f)
        at = ps[pos][2].get('dereferenceable')
        return int(at[0]) if at else None

    def fallible(self, fid, cond):
        c = self.fl.c
        if not self.symbolic:
            return (c.fill(1, FALSE),)
        e = c.var(('in', 'error%d' % self.k))
        self.k += 1
        self.errs[fid] = c.OR(self.errs[fid], c.AND(cond, e))
        return (c.fill(1, e),)

    def lit(self, fid, cond, b):
        if b:
            self.ev[fid].append((cond, ('lit', b)))

    def on(self, fl, name, d, args, mem, cond):
        fid, fpos = None, None
        args = [fl.t2p.get(a, a) if isinstance(a, int) else a for a in args]
        for i, a in enumerate(args):
            if isinstance(a, Ptr) and a.obj in ('f', 'g'):
                if fid is not None or fl.c.isc(a.off) != 0:
                    raise Unsupported('formatter passed around')
                fid, fpos = a.obj, i
        if fid is None:
            return None
        f = fl.mod.funcs.get(name)
        t = tail(name)
        ty = fl.mod.resolve(d['ty'])
        m = re.search(r'core3fmt9Formatter\d+(\w+)$', t)
        meth = m.group(1) if m else None
        if meth in ('debug_lower_hex', 'debug_upper_hex', 'alternate', 'sign_plus', 'sign_minus',
                    'sign_aware_zero_pad'):
            self.asked.add(meth)
            return (fl.c.fill(1, TRUE if meth in self.flags else FALSE),)
        if meth in ('width', 'precision', 'fill', 'align'):
            self.asked.add(meth)
            on, c = meth in self.flags, fl.c
            if ty.k == 'int':
                v = {32: 0x2a if on else 0x20, 8: 2 if on else 3}.get(ty.a)
                if v is None:
                    raise Unsupported('formatter call ' + t)
                return (c.const(ty.a, v),)
            return ([c.const(64, int(on)), c.const(64, 7)],)
        if meth == 'write_fmt' or re.search(r'fmt\.\.Formatter.*Write.*write_fmt$', t):
            self.arguments(fid, mem, args[1], cond)
            return self.fallible(fid, cond)
        if meth == 'pad':
            self.ev[fid].append((cond, ('pad', self.str_at(mem, args[1], cint(fl.c, args[2]), cond))))
            return self.fallible(fid, cond)
        if meth == 'write_str' or t.endswith('9write_str'):
            self.lit(fid, cond, self.str_at(mem, args[1], cint(fl.c, args[2]), cond))
            return self.fallible(fid, cond)
        if t.endswith('10write_char'):
            k = fl.c.isc(args[1])
            if k is None:
                raise Unsupported('character is not constant')
            self.lit(fid, cond, chr(k).encode())
            return self.fallible(fid, cond)
        if f is not None and not f.decl:
            return None           # follow
        if not (ty.k == 'int' and ty.a == 1):
            raise Unsupported('formatter call ' + t)
        if re.search(r'\$LT\$str\$u20\$as\$u20\$core\.\.fmt\.\.Display\$GT\$3fmt$', t):
            self.ev[fid].append((cond, ('pad', self.str_at(mem, args[0], cint(fl.c, args[1]), cond))))
            return self.fallible(fid, cond)
        vals = []
        for i, a in enumerate(args):
            if i == fpos:
                continue
            if isinstance(a, Ptr) or fl.mod.resolve(d['args'][i][0]).k == 'ptr':
                n = self.deref(name, i)
                if n is None:
                    raise Unsupported('size of argument %d of %s' % (i, t))
                p = fl.t2ptr(a)
                vals.append(fl.load_bits(mem, p.obj, cint(fl.c, p.off), n * 8, cond))
            else:
                vals.append(fl.p2t(a))
        self.ev[fid].append((cond, ('elem', t, vals)))
        return self.fallible(fid, cond)

    def arguments(self, fid, mem, p, cond):
        fl, c = self.fl, self.fl.c
        p = fl.t2ptr(p)
        pieces, np_ = self.word(mem, p, 0, cond), cint(c, self.word(mem, p, 8, cond))
        args, na = self.word(mem, p, 16, cond), cint(c, self.word(mem, p, 24, cond))
        spec = c.isc(self.word(mem, p, 32, cond))
        if spec != 0:
            # `{:...}` with options of its own: they replace the options of the caller
            self.ev[fid].append((cond, ('spec', b'a value with fixed formatting options')))
            return
        pp, ap = fl.t2ptr(pieces), fl.t2ptr(args)
        for i in range(max(np_, na)):
            if i < np_:
                sp = self.word(mem, pp, 16 * i, cond)
                n = cint(c, self.word(mem, pp, 16 * i + 8, cond))
                if n:
                    self.lit(fid, cond, self.str_at(mem, sp, n, cond))
            if i < na:
                vp = fl.t2ptr(self.word(mem, ap, 16 * i, cond))
                fp = fl.t2ptr(self.word(mem, ap, 16 * i + 8, cond))
                if not (isinstance(fp.obj, str) and fp.obj.startswith('@')):
                    raise Unsupported('unknown formatting function')
                self.plain(fid, fp.obj[1:], vp, mem, cond)

    def plain(self, fid, fn, vp, mem, cond):
        """`{}` of one argument: default options"""
        fl, c = self.fl, self.fl.c
        t = tail(fn)
        vo = cint(c, vp.off)
        if re.search(r'\$LT\$\$RF\$T\$u20\$as\$u20\$core\.\.fmt\.\.Display\$GT\$3fmt$', t) and \
                self.deref(fn, 0) == 16:
            sp = self.word(mem, vp, 0, cond)
            n = cint(c, self.word(mem, vp, 8, cond))
            self.lit(fid, cond, self.str_at(mem, sp, n, cond))
            return
        n = self.deref(fn, 0)
        f = fl.mod.funcs.get(fn)
        prim = re.search(r'core\.\.fmt\.\.\w+(\$u20\$for\$u20\$([iu]\d+|[iu]size|f32|f64)|\$)\$GT\$3fmt$', t) or 'LT$bool$u20' in t
        if n is None or not (f.decl or prim):
            raise Unsupported('formatting through ' + t)
        v = fl.load_bits(mem, vp.obj, vo, n * 8, cond)
        self.ev[fid].append((cond, ('plain', t, [v])))

    def fold(self, fid):
        def go(sm):
            out = []
            for cond, it in self.ev[fid]:
                if not sm.bdd(cond):
                    continue
                if it[0] == 'lit' and out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + it[1])
                elif it[0] in ('lit', 'pad', 'spec'):
                    out.append(it)
                else:
                    out.append((it[0], trait(it[1]), tuple(sm.term(x) for x in it[2])))
            return out
        return go

    def stream(self, fid):
        out = []
        for cond, it in self.ev[fid]:
            if cond == FALSE:
                continue
            if cond != TRUE:
                raise Unsupported('conditional output')
            if it[0] == 'lit' and out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + it[1])
            else:
                out.append(it)
        return out


def trait(t):
    m = re.search(r'fmt\.\.(\w+)', t)
    return m.group(1) if m else t


def show(it):
    return repr(it[1].decode('utf8', 'replace')) if it[0] in ('lit', 'pad', 'spec') else '%s of a value' % trait(it[1])


class FmtCheck:
    def __init__(self, ob_fields):
        self.lanes = ob_fields      # fn(s) -> list of lane terms of r

    def alias(self, fl, s):
        o = fl.objs['r']
        o.init = {off: (w, t) for (off, (w, _)), t in zip(sorted(o.init.items()), self.lanes(s))}

    def prepare(self, fl, s):
        self.alias(fl, s)
        self.first = FmtRun(fl, set(), False)

    def again(self, fl, ob, flags, symbolic):
        c = fl.c
        if symbolic:
            c = Ctx(600000)
            for k in range(600):          # error bits first in the diagram order
                c.var(('in', 'error%d' % k))
        f2 = Flow(fl.mod, c)
        s, args, outs = setup_args(f2, c, ob, fl.mod.parse_header(fl.mod.funcs[ob.fn]))
        self.alias(f2, s)
        r = FmtRun(f2, flags, symbolic)
        rc, rv, mem = f2.run(ob.fn, args, TRUE, {})
        return r, f2, mem

    def __call__(self, fl, s, rc, rv, mem, ok, vd):
        c = fl.c
        probs = []
        runs = [('', self.first)]
        for flag in sorted(self.first.asked):
            runs.append((' with ' + flag, self.again(fl, self.ob, {flag}, False)[0]))
        for nm, r in runs:
            if any(x not in (TRUE, FALSE) for fid in 'fg' for x, _ in r.ev[fid]):
                w = sample_streams(r.fl.c, [x for fid in 'fg' for x, _ in r.ev[fid]], [r.fold('f'), r.fold('g')])
                if w:
                    probs.append(('output%s: %s instead of %s for %s' % (nm, w[1][:6], w[2][:6], w[0]), lambda: 0, None, None))
                    continue
            a, b = r.stream('f'), r.stream('g')
            vd.cmp += len(b)
            for i in range(max(len(a), len(b))):
                x = a[i] if i < len(a) else ('lit', b'')
                y = b[i] if i < len(b) else ('lit', b'')
                what = 'output item %d%s: ' % (i, nm)
                if x[0] != y[0] or x[0] in ('lit', 'pad') and x[1] != y[1]:
                    probs.append((what + '%s instead of %s' % (show(x), show(y)), lambda: 0, None, None))
                    break
                if x[0] in ('elem', 'plain'):
                    if x[1] != y[1] or len(x[2]) != len(y[2]):
                        if trait(x[1]) != trait(y[1]):
                            probs.append((what + '%s instead of %s' % (show(x), show(y)), lambda: 0, None, None))
                            break
                        raise Unsupported('%s instead of %s' % (x[1], y[1]))
                    for g, w in zip(x[2], y[2]):
                        if g != w:
                            probs.append((what + 'value', ok, g, w))
        # an error of the sink is passed on
        r, f2, mem2 = self.again(fl, self.ob, set(), True)
        c = f2.c
        for k, fid in enumerate(('f', 'g')):
            got = c.tobool(c.slice(f2.load_bits(mem2, 'o', k, 8, FALSE), 0, 1))
            vd.cmp += 1
            d = c.XOR(got, r.errs[fid])
            if d != FALSE:
                probs.append(('whether an error of the formatter is returned', lambda: 0, None, None))
        return probs


REF = '''
use core::fmt;
#[inline] fn ref_fmt<T>(name: &str, r: &[T], g: &mut fmt::Formatter<'_>, one: fn(&T, &mut fmt::Formatter<'_>) -> fmt::Result) -> fmt::Result {
    g.write_str(name)?;
    let mut i = 0;
    while i < r.len() { if i > 0 { g.write_str(", ")?; } one(&r[i], g)?; i += 1; }
    g.write_str(")")
}
'''


# core::any::type_name of the pointees
TYPE_NAME = {'[u64; 0x1_0000_0001]': '[u64; 4294967297]'}


def p26():
    obs = []

    def add(key, argt, lanes, rty, fields, name, tr, anchor, body=None):
        chk = FmtCheck(lanes)
        ob = Ob(key, [('a', argt), ('r', InR(rty, fields)), ('f', Opq('&mut fmt::Formatter<\'_>')),
                      ('g', Opq('&mut fmt::Formatter<\'_>')), ('o', OutR('[bool; 2]', [(0, 8), (1, 8)]))],
                '*o = [fmt::%s::fmt(a, f).is_err(), %s.is_err()]' % (
                    tr, body or 'ref_fmt(%s, r, g, fmt::%s::fmt)' % (name, tr)),
                lambda s: s.want.__setitem__('o', [s.c.const(8, 0)] * 2), anchor, check=chk, helpers=REF)
        chk.ob = ob
        obs.append(ob)
    for v in ALLP:
        A = 'src/api/minimal/ptr.rs' if v.cls == 'p' else 'src/api/fmt/debug.rs'
        if v.cls == 'm':
            lanes = lambda s: [s.c.zext(s.c.boolterm(s.c.bit(x, 0)), 8) for x in s['a']]
            add('Debug %s' % v, In(v), lanes, '[bool; %d]' % v.n, [(i, 8) for i in range(v.n)], '"%s("' % v.name,
                'Debug', A)
            continue
        lanes = lambda s: list(s['a'])
        fields = [(i * v.w // 8, v.w) for i in range(v.n)]
        nm = '"%s("' % v.name if v.cls != 'p' else '"%s<%s>("' % (v.name, TYPE_NAME.get(v.to, v.to))
        add('Debug %s' % v, In(v), lanes, '[%s; %d]' % (v.elem, v.n), fields, nm, 'Debug', A)
        if v.cls in 'iu':
            for tr, fn in (('LowerHex', 'lower_hex'), ('UpperHex', 'upper_hex'), ('Octal', 'octal'), ('Binary', 'binary')):
                add('%s %s' % (tr, v), In(v), lanes, '[%s; %d]' % (v.elem, v.n), fields, nm, tr, 'src/api/fmt/%s.rs' % fn)
    for m, w in (('m8', 8), ('m16', 16), ('m32', 32), ('m64', 64), ('m128', 128), ('msize', 64)):
        lanes = lambda s: [s.c.zext(s.c.boolterm(s.c.bit(s['a'][0], 0)), 8)]
        add('Debug %s' % m, InR(m, [(0, w)], mask=True), lanes, 'bool', [(0, 8)], '', 'Debug', 'src/masks.rs',
            'write!(g, "%s({})", *r)' % m)
    return obs

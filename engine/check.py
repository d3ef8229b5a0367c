#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property on /repo's current working tree, statically.
exit 0: every obligation not refuted (undecided ones are counted in evidence)
exit 1: a VIOLATION line was printed
"""
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import build            # noqa: E402
import core             # noqa: E402
import props            # noqa: E402
from core import Ob, Sc, OutR, decide, Module   # noqa: E402

QUICK = ['sse2', 'sse42', 'avx', 'avx2', 'checked', 'raw']
# properties whose implementation is selected by target feature
FEATURED = {'P06', 'P07', 'P08', 'P19', 'P21'}
THOROUGH = ['sse2', 'ssse3', 'sse41', 'sse42', 'avx', 'avx2', 'avx512', 'checked', 'raw']
QUICK_FEATURED = THOROUGH

G = {}


def canary():
    """two self-tests of the engine, independent of packed_simd: one claim that
    holds and one that does not"""
    def add(s):
        s.want['o'] = [s.c.add(s['a'], s['b'])]

    def sub(s):
        s.want['o'] = [s.c.sub(s['a'], s['b'])]
    args = [('a', Sc('u32', 32)), ('b', Sc('u32', 32)), ('o', OutR('u32', [(0, 32)]))]
    return [(Ob('canary holds', args, '*o = a.wrapping_add(b)', add), 'ok'),
            (Ob('canary fails', args, '*o = a.wrapping_add(b)', sub), 'violation')]


def known(pid):
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) key=\[(.*?)\] (.*)$', ln.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def form(key):
    """the operation of an obligation, without its vector types"""
    return re.sub(r'\b[iufm](?:8|16|32|64|128|size)x\d+\b|\b[cm]ptrx\d+\b', '*', key)


def work(job):
    cfg, lo, hi, t0 = job
    m, obs = G[cfg]
    out = []
    for o in obs[lo:hi]:
        el = time.time() - t0
        if el > 560:
            out.append((o.key, 'undecided', 'time limit of the run', None, 0, 0, []))
            continue
        v = decide(m, o, cfg, 20.0 if el < 150 else 2.0)
        out.append((o.key, v.status, v.detail, v.witness, v.insts, v.cmp, ['%s: %s' % (form(o.key), k) for k in v.kinds]))
    return cfg, out


def locate(wd, cfg, obs):
    """packed_simd source functions inlined into the given wrappers"""
    res = {}
    try:
        txt = build.compile_ir(wd, cfg, 'locate', ''.join(o.helpers for o in obs) + ''.join(o.rust() for o in obs),
                               [o.fn for o in obs], extra='-Cdebuginfo=1')
    except build.BuildError:
        return res
    md = {}
    for ln in txt.split('\n'):
        m = re.match(r'!(\d+) = (?:distinct )?!(DI\w+)\((.*)\)$', ln)
        if m:
            md[m.group(1)] = (m.group(2), m.group(3))

    def fld(t, k):
        m = re.search(r'\b%s: (?:!(\d+)|"([^"]*)")' % k, t)
        return (m.group(1) or m.group(2)) if m else None
    cur, body = None, {}
    for ln in txt.split('\n'):
        m = re.match(r'define .*?@"?([\w.$]+)"?\(', ln)
        if m:
            cur = m.group(1)
            body[cur] = set()
        elif ln == '}':
            cur = None
        elif cur:
            m = re.search(r'!dbg !(\d+)', ln)
            if m:
                body[cur].add(m.group(1))

    def sub(sc):
        seen = 0
        while sc and sc in md and seen < 60:
            k, t = md[sc]
            if k == 'DISubprogram':
                f = fld(t, 'file')
                fn = md.get(f, ('', ''))[1]
                return fld(t, 'name'), fld(fn, 'filename'), fld(fn, 'directory')
            sc = fld(t, 'scope')
            seen += 1
        return None
    for o in obs:
        names = []
        for d in sorted(body.get(o.fn, ()), key=int):
            while d and d in md:
                t = md[d][1]
                r = sub(fld(t, 'scope'))
                if r and r[1]:
                    path = r[1] if r[1].startswith('/') else os.path.join(r[2] or '', r[1])
                    if path.startswith(build.REPO + '/'):
                        e = '%s: fn %s' % (os.path.relpath(path, build.REPO), r[0])
                        if e not in names:
                            names.append(e)
                d = fld(t, 'inlinedAt')
        res[o.key] = names[:40]
    return res


def run_ir(pid, tier, wd, viol, ev):
    props.TIER = tier
    kn = known(pid)
    obs = props.GENS[pid]()
    can = canary()
    allobs = obs + [o for o, _ in can]
    cfgs = THOROUGH if tier == 'thorough' else (QUICK_FEATURED if pid in FEATURED else QUICK)
    if pid == 'P31' and tier != 'thorough':
        cfgs = ['sse2', 'avx2', 'checked', 'raw']
    cfgs = cfgs + build.extra_configs()
    src = ''.join(dict.fromkeys(o.helpers for o in allobs)) + ''.join(o.rust() for o in allobs)
    t0 = time.time()
    timing = []
    errs = {}

    def b(cfg):
        try:
            return cfg, build.compile_ir(wd, cfg, pid, src, [o.fn for o in allobs], timing=timing)
        except build.BuildError as e:
            errs[cfg] = e
            return cfg, None
    par = 4 if len(cfgs) > 4 else len(cfgs)
    with ThreadPoolExecutor(par) as ex:
        res = [(c, t) for c, t in ex.map(b, cfgs) if t is not None]
    for cfg, e in sorted(errs.items()):
        if cfg.startswith('extra'):
            continue
        pts = []
        lines = open(os.path.join(wd, 'crate-%s-%s' % (pid, cfg), 'src', 'lib.rs')).read().split('\n')
        for m in re.finditer(r'^\s*--> (\S+?):(\d+)', e.log, re.M):
            if m.group(1).endswith('src/lib.rs') and build.REPO not in m.group(1):
                n = int(m.group(2))
                if n <= len(lines):
                    mm = re.search(r'fn (h_\w+)\(', lines[n - 1])
                    if mm and mm.group(1) not in pts:
                        pts.append(mm.group(1))
        keys = [o.key for o in obs if o.fn in pts]
        err = re.findall(r'^error.*(?:\n.*){0,4}', e.log, re.M)[:4]
        if not re.search(r'^error(\[E\d+\])?:', e.log, re.M) and not keys:
            raise RuntimeError('cannot build (%s): %s\n%s' % (cfg, e, e.log[-3000:]))
        for k in keys[:20] or ['<crate>']:
            viol.append(dict(key=k, config=cfg, what='the operation is no longer available: the program using it does '
                             'not compile' if keys else 'the crate does not compile in this configuration',
                             detail='\n'.join(err)))
    t1 = time.time()
    jobs = []
    G.clear()
    for cfg, t in res:
        G[cfg] = (Module(t), allobs)
        step = max(4, min(24, len(allobs) // 16))
        jobs += [(cfg, i, i + step, t1) for i in range(0, len(allobs), step)]
    st = {c: dict(obligations=0, discharged=0, undecided=0, refuted=0, instructions=0, comparisons=0) for c, _ in res}
    und = []
    canres = {}
    bykey = {o.key: o for o in obs}
    ckeys = {o.key: x for o, x in can}
    samples = []
    stopped = False
    pool = mp.get_context('fork').Pool(8)
    try:
        stream = pool.imap_unordered(work, jobs)
        while True:
            try:
                cfg, rs = stream.next(timeout=max(5, 680 - (time.time() - t1)))
            except StopIteration:
                break
            except mp.TimeoutError:
                und.append('analysis stopped: time limit of the run')
                stopped = True
                break
            for key, status, detail, wit, insts, ncmp, kinds in rs:
                if key in ckeys:
                    canres[cfg, key] = status
                    continue
                d = st[cfg]
                d['obligations'] += 1
                d['instructions'] += insts
                d['comparisons'] += ncmp
                if status == 'ok':
                    d['discharged'] += 1
                    if len(samples) < 12 and d['discharged'] % 37 == 1:
                        samples.append('%s [%s]: %d IR instructions, %d term comparisons' % (key, cfg, insts, ncmp))
                elif status == 'undecided':
                    d['undecided'] += 1
                    und.append('%s [%s]: %s' % (key, cfg, detail[:300]))
                else:
                    d['refuted'] += 1
                    for k in kinds or [None]:
                        viol.append(dict(key=key, config=cfg, what=detail, witness=wit, finding=k or key))
            if sum(v.get('finding') not in kn for v in viol) > 60:
                break
    finally:
        pool.terminate()
        pool.join()
    for (cfg, k), s in canres.items():
        if s != ckeys[k]:
            raise RuntimeError('self-test of the engine failed: %s is %s, expected %s' % (k, s, ckeys[k]))
    if any(v.get('finding') not in kn for v in viol):
        for cfg in sorted(set(v['config'] for v in viol)):
            vs = [v for v in viol if v['config'] == cfg and v['key'] in bykey and 'witness' in v and v.get('finding') not in kn][:6]
            if vs:
                loc = locate(wd, cfg, [bykey[v['key']] for v in vs])
                for v in vs:
                    v['source'] = loc.get(v['key'], [])
                break
    elif stopped:
        for c, d in st.items():
            d['undecided'] += len(obs) - d['obligations']
            d['obligations'] = len(obs)
    else:
        for c, d in st.items():
            if d['obligations'] != len(obs):
                raise RuntimeError('only %d of %d obligations analysed (%s)' % (d['obligations'], len(obs), c))
        cfgs = [x for x in cfgs if not (x.startswith('extra') and x in errs)]
        if len(res) != len(cfgs) or len(canres) != len(can) * len(cfgs):
            raise RuntimeError('configurations missing')
    ev['coverage'] = dict(
        obligations=sum(d['obligations'] for d in st.values()),
        discharged=sum(d['discharged'] for d in st.values()),
        undecided=sum(d['undecided'] for d in st.values()),
        refuted=sum(d['refuted'] for d in st.values()),
        operations=len(obs),
        configurations=st,
        undecided_list=und[:40],
        build_s=round(t1 - t0, 1), analysis_s=round(time.time() - t1, 1),
        rule='one obligation = one public operation on one vector type, as lowered by rustc from the working tree; '
             'discharged when the canonical term of every output lane, the panic condition and the memory footprint '
             'computed by the dataflow analysis are identical to the specified ones for all inputs',
        samples=samples,
        checker_cmd='python3 engine/check.py %s %s' % (pid, tier),
        trusted_base=['rustc nightly-2023-07-30 and LLVM opt: lowering of the source to the analysed IR',
                      'engine/term.py canonicalisation, engine/flow.py and engine/intrin.py IR semantics',
                      'engine/props.py specifications, engine/catalog.json list of public types'])


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    t0 = time.time()
    wd, tmp = build.workdir()
    viol = []
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='proof')
    try:
        if pid in props.GENS:
            run_ir(pid, tier, wd, viol, ev)
        else:
            import witness
            witness.run(pid, tier, wd, viol, ev)
    finally:
        if tmp:
            shutil.rmtree(wd, ignore_errors=True)
    kn = known(pid)
    fresh = []
    hit = set()
    for v in viol:
        if v.get('finding', v['key']) in kn:
            hit.add(v.get('finding', v['key']))
        else:
            fresh.append(v)
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s [%s] %s' % (pid, k, kn[k]))
    ev['wall_s'] = round(time.time() - t0, 2)
    ev['violations'] = len(fresh)
    if 'coverage' not in ev:
        ev['coverage'] = dict(explanation='analysis stopped at a violation')
    ev['coverage']['known_findings_matched'] = sorted(hit)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    c = ev['coverage']
    print('%s %s: %s obligations, %s discharged, %s undecided, %d violations, %.1f s' % (
        pid, tier, c.get('obligations'), c.get('discharged'), c.get('undecided', 0), len(fresh), ev['wall_s']))
    for u in c.get('undecided_list', [])[:5]:
        print('  undecided: ' + u[:300])
    if fresh:
        rd = os.path.join(ROOT, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s.json' % pid)
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, tier=tier, violations=fresh[:60],
                           replay='python3 engine/check.py %s %s' % (pid, tier)), f, indent=1)
        for v in fresh[:5]:
            print('  %s [%s]: %s' % (v['key'], v['config'], v['what']))
            if v.get('detail'):
                print('    ' + v['detail'].replace('\n', '\n    '))
            if v.get('witness'):
                print('    for example: %s' % json.dumps(v['witness'])[:400])
            for s in v.get('source', [])[:12]:
                print('    through %s' % s)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()

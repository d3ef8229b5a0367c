"""Compile a probe crate against /repo's working tree and return its LLVM IR.

The probe crate contains one tiny exported wrapper per public operation and
vector type.  rustc lowers the wrapper plus everything of packed_simd it
instantiates to IR; `opt` inlines and unrolls.  Nothing is executed.
"""
import os
import re
import shutil
import subprocess
import tempfile
import time

REPO = os.environ.get('VP_REPO', '/repo')
TOOLCHAIN = 'nightly-2023-07-30'
CONFIGS = {
    'sse2': '',
    'ssse3': '+ssse3',
    'sse41': '+sse4.1',
    'sse42': '+sse4.2',
    'avx': '+avx',
    'avx2': '+avx2',
    'avx512': '+avx512f,+avx512bw,+avx512vl',
    # same features as sse2, built as `cargo build` builds: debug assertions and overflow checks on
    'checked': '',
    # same build as sse2, the IR left as rustc emits it: nothing undefined has been optimised away
    'raw': '',
}
EXTRA = {'raw': '-Zmir-opt-level=0', 'checked': '-Cdebug-assertions=on -Coverflow-checks=on'}
# everything the configurations above enable, with what those features imply
COVERED = set('fxsr sse sse2 sse3 ssse3 sse4.1 sse4.2 popcnt crc32 avx avx2 avx512f avx512bw avx512vl fma f16c'.split()) - {
    'popcnt', 'crc32', 'fma', 'f16c', 'sse3'}


def extra_configs():
    """configurations for target features that the current source tests for and no fixed configuration enables on its own"""
    names = set()
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith('.rs'):
                with open(os.path.join(d, f), errors='replace') as h:
                    names.update(re.findall(r'target_feature\s*=\s*"([^"]+)"', h.read()))
    names -= COVERED
    if not names:
        return []
    r = subprocess.run(['rustc', '--print', 'target-features', '--target', 'x86_64-unknown-linux-gnu'], env=env(''),
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    x86 = set(re.findall(r'^    (\S+)', r.stdout, re.M))
    names = sorted(n for n in names & x86 if not n.startswith('crt-') and n not in ('soft-float', 'v7', 'neon', 'altivec'))
    if not names:
        return []
    CONFIGS['extra'] = ','.join('+' + n for n in names)
    CONFIGS['extra-avx2'] = '+avx2,' + CONFIGS['extra']
    return ['extra', 'extra-avx2']


class BuildError(Exception):
    def __init__(self, what, log):
        Exception.__init__(self, what)
        self.log = log


def tool(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    raise BuildError('tool %s not found' % names[0], '')


def env(feat, debug=False, extra=''):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             CARGO_INCREMENTAL='0')
    for k in ('RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'RUSTC', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    fl = '-Ccodegen-units=1 -Cno-prepopulate-passes --emit=llvm-bc,metadata,link -Awarnings --cap-lints=allow'
    if feat:
        fl += ' -Ctarget-feature=' + feat
    e['RUSTFLAGS'] = (fl + ' ' + extra).strip()
    return e


def write_crate(d, src, edition='2021'):
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('''[package]
name = "probe"
version = "0.0.0"
edition = "%s"
[lib]
crate-type = ["rlib"]
[dependencies]
packed_simd = { path = "%s", features = ["into_bits"] }
[profile.release]
panic = "abort"
debug = false
incremental = false
[profile.dev]
panic = "abort"
debug = false
incremental = false
[workspace]
''' % (edition, REPO))
    lock = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'probe.lock')
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
    with open(os.path.join(d, 'src', 'lib.rs'), 'w') as f:
        f.write(src)


PRELUDE = '''#![allow(unused, non_snake_case, improper_ctypes_definitions, deprecated)]
#![feature(repr_simd, stdsimd, portable_simd)]
extern crate packed_simd;
use packed_simd::*;
'''


def workdir():
    base = os.environ.get('VP_CACHE')
    if base:
        os.makedirs(base, exist_ok=True)
        return base, False
    return tempfile.mkdtemp(prefix='vp-psimd-'), True


def compile_ir(wd, cfg, name, src, exports, debug=False, optimize=True, timing=None, extra=''):
    """returns the text of the optimised IR"""
    d = os.path.join(wd, 'crate-%s-%s%s' % (name, cfg, '-dbg' if debug else ''))
    tgt = os.path.join(wd, 'target-%s%s' % (cfg, '-dbg' if debug else ''))
    write_crate(d, PRELUDE + src)
    t0 = time.time()
    prof = 'debug' if debug else 'release'
    e = env(CONFIGS[cfg], extra=EXTRA.get(cfg, '') + ' ' + extra)
    e['CARGO_TARGET_DIR'] = tgt
    deps = os.path.join(tgt, prof, 'deps')
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith(('probe-', 'libprobe-')):
                os.remove(os.path.join(deps, f))
    cmd = ['cargo', 'build', '--offline', '--manifest-path', os.path.join(d, 'Cargo.toml')]
    if not debug:
        cmd.append('--release')
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode:
        raise BuildError('cargo build of the probe crate failed (%s)' % cfg, r.stdout)
    t1 = time.time()
    bcs = {}
    for f in os.listdir(deps):
        m = re.match(r'(probe|packed_simd|num_traits|libm)-[0-9a-f]+\.bc$', f)
        if m:
            p = os.path.join(deps, f)
            if m.group(1) not in bcs or os.path.getmtime(p) > os.path.getmtime(bcs[m.group(1)]):
                bcs[m.group(1)] = p
    if 'probe' not in bcs or 'packed_simd' not in bcs:
        raise BuildError('no bitcode produced: %s' % sorted(bcs), '')
    linked = os.path.join(wd, '%s-%s.bc' % (name, cfg))
    r = subprocess.run([tool('llvm-link-18', 'llvm-link')] + [bcs[k] for k in ('packed_simd', 'num_traits', 'probe') if k in bcs]
                       + ['-o', linked], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('llvm-link failed', r.stdout)
    out = os.path.join(wd, '%s-%s.ll' % (name, cfg))
    lst = os.path.join(wd, '%s-%s.syms' % (name, cfg))
    with open(lst, 'w') as f:
        f.write('\n'.join(exports) + '\n')
    passes = 'internalize,default<O3>,function(lcssa)' if optimize else 'internalize,globaldce'
    if cfg == 'raw':
        passes = 'internalize,globaldce,function(lcssa)'
    r = subprocess.run([tool('opt-18', 'opt'), '-passes=' + passes, '-internalize-public-api-file=' + lst,
                        '-vectorize-loops=false', '-vectorize-slp=false', '-unroll-threshold=100000',
                        '-inline-threshold=100000', '-unroll-max-percent-threshold-boost=100000',
                        linked, '-S', '-o', out],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('opt failed', r.stdout)
    os.remove(linked)
    t2 = time.time()
    with open(out) as f:
        text = f.read()
    os.remove(out)
    if timing is not None:
        timing.append((name, cfg, round(t1 - t0, 1), round(t2 - t1, 1), len(text)))
    return text

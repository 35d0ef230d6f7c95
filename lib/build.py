"""Compiles drivers against /repo's current working tree and loads them."""
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile

from ir import Module

VERIF = os.environ.get('VP_VERIF') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
IRTOOL = os.path.join(BUILD, 'irtool')


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (anchor gone, driver no longer
    compiles, ...): exit 2, neither a pass nor a violation."""


CONFIGS = {
    'x86': [],
    'sse4': ['-msse4.1'],
    'avx2': ['-mavx2', '-mfma', '-DGEMMLOWP_ENABLE_AVX2'],
    'aarch64': ['--target=aarch64-linux-gnu'],
    'armhf': ['--target=arm-linux-gnueabihf', '-mfpu=neon'],
}
ALL = list(CONFIGS)


def foreign(flags, hdr):
    """Target without its own C library here: borrow another 32/64-bit one's
    headers (only declarations matter for the analysis)."""
    r = '/usr/%s/include' % hdr
    return flags + ['-nostdinc', '-nostdinc++',
                    '-isystem', os.path.join(VERIF, 'drivers', 'shim'),
                    '-isystem', resource_dir() + '/include',
                    '-isystem', r + '/c++/13', '-isystem', r + '/c++/13/' + hdr, '-isystem', r]


def add_foreign():
    """Configurations that the repository's own build does not exercise."""
    if 'mips64+msa' in CONFIGS:
        return
    CONFIGS['aarch64+dotprod'] = ['--target=aarch64-linux-gnu', '-march=armv8.2-a+dotprod',
                                  '-DGEMMLOWP_DOTPROD_KERNEL']
    CONFIGS['i686+sse4'] = foreign(['--target=i686-linux-gnu', '-msse4.1'], 'arm-linux-gnueabihf')
    CONFIGS['mips64+msa'] = foreign(['--target=mips64el-linux-gnuabi64', '-mmsa', '-mcpu=mips64r6'],
                                    'aarch64-linux-gnu')
    CONFIGS['mips32+msa'] = foreign(['--target=mipsel-linux-gnu', '-mmsa', '-mfp64', '-mcpu=mips32r5'],
                                    'arm-linux-gnueabihf')
    CONFIGS['wasm32+simd'] = foreign(['--target=wasm32', '-msimd128'], 'arm-linux-gnueabihf')


EXTRA = ['aarch64+dotprod', 'i686+sse4', 'mips64+msa', 'mips32+msa', 'wasm32+simd']

_repo_hash = None


def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        h = hashlib.sha256()
        for root, dirs, files in os.walk(REPO):
            dirs[:] = sorted(d for d in dirs if d not in ('.git', '_build', 'test', 'doc'))
            for f in sorted(files):
                if f.endswith(('.h', '.cc')):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
        _repo_hash = h.hexdigest()
    return _repo_hash


def ensure_tool(name='irtool'):
    src = os.path.join(VERIF, 'tool', name + '.cpp')
    exe = os.path.join(BUILD, name)
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return
    r = subprocess.run(['make', '-s', '-B', '-C', os.path.join(VERIF, 'tool'), '../build/' + name],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('building tool/%s failed:\n' % name + r.stderr[-2000:])


_resdir = None


def resource_dir():
    global _resdir
    if _resdir is None:
        _resdir = subprocess.run(['clang', '-print-resource-dir'], capture_output=True,
                                 text=True).stdout.strip()
    return _resdir


def ast(src, cfg='x86', ndebug=False, extra=()):
    """Facts read off clang's AST of a driver (see tool/asttool.cpp)."""
    ensure_tool('asttool')
    if not os.path.isabs(src):
        src = os.path.join(VERIF, 'drivers', src)
    os.makedirs(BUILD, exist_ok=True)
    with tempfile.TemporaryDirectory(dir=BUILD) as td:
        out = os.path.join(td, 'a.json')
        r = subprocess.run([os.path.join(BUILD, 'asttool'), src, out, os.path.realpath(REPO), '--',
                            '-resource-dir', resource_dir(), *clang_flags(cfg, ndebug, extra)],
                           capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            raise AnalysisBroken('driver %s does not compile for %s:\n%s' % (src, cfg, r.stderr[-3000:]))
        with open(out) as f:
            return json.load(f)


def clang_flags(cfg, ndebug=False, extra=()):
    if cfg not in CONFIGS:
        add_foreign()
    return (['-std=c++11', '-I' + REPO, '-w'] + CONFIGS[cfg] +
            (['-DNDEBUG'] if ndebug else []) + list(extra))


def module(src, cfg='x86', ndebug=False, extra=(), flatten=True, roots=('^vp_',), keep=(),
           scev=True, passes=None, exceptions=False, debug=True,
           load=True):
    """Compile a driver (path relative to /verif/drivers, or absolute) and
    return the normalised module."""
    ensure_tool()
    if not os.path.isabs(src):
        src = os.path.join(VERIF, 'drivers', src)
    cflags = clang_flags(cfg, ndebug, extra) + ['-O1', '-Xclang', '-disable-llvm-passes']
    if debug:
        cflags.append('-g')
    if not exceptions:
        cflags.append('-fno-exceptions')
    targs = []
    if flatten:
        targs.append('--flatten')
    if scev:
        targs.append('--scev')
    targs += ['--root=' + r for r in roots] + ['--keep=' + k for k in keep]
    if passes:
        targs.append('--passes=' + passes)
    with open(src, 'rb') as f:
        key = hashlib.sha256()
        key.update(f.read())
    with open(os.path.join(VERIF, 'tool', 'irtool.cpp'), 'rb') as f:
        key.update(f.read())
    for inc in sorted(os.listdir(os.path.join(VERIF, 'drivers'))):
        if inc.endswith('.h'):
            with open(os.path.join(VERIF, 'drivers', inc), 'rb') as f:
                key.update(f.read())
    key.update(repr((src, cflags, targs, repo_hash(), REPO)).encode())
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, key.hexdigest()[:32] + '.json')
    if not os.path.exists(out):
        with tempfile.TemporaryDirectory(dir=BUILD) as td:
            bc = os.path.join(td, 'm.bc')
            r = subprocess.run(['clang++', *cflags, '-c', '-emit-llvm', src, '-o', bc],
                               capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken('driver %s does not compile for %s:\n%s' %
                                     (src, cfg, r.stderr[-3000:]))
            js = os.path.join(td, 'm.json')
            r = subprocess.run([IRTOOL, bc, js, *targs], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken('irtool failed on %s/%s:\n%s' % (src, cfg, r.stderr[-2000:]))
            os.replace(js, out)
    if not load:
        return None
    m = Module.load(out)
    m.cfg = cfg + ('+NDEBUG' if ndebug else '')
    return m


def prefetch(units, **kw):
    """compile several (driver, configuration) pairs in parallel"""
    from concurrent.futures import ThreadPoolExecutor
    ensure_tool()
    add_foreign()
    repo_hash()
    resource_dir()

    def one(u):
        try:
            module(u[0], u[1], load=False, **kw)
        except AnalysisBroken:
            pass
    with ThreadPoolExecutor(8) as p:
        list(p.map(one, units))


def try_compile(code, cfg='x86', extra=(), syntax_only=True, ndebug=False):
    """Type-check a translation unit; returns (ok, diagnostics)."""
    with tempfile.NamedTemporaryFile('w', suffix='.cc', delete=False) as f:
        f.write(code)
        p = f.name
    try:
        r = subprocess.run(['clang++', *clang_flags(cfg, ndebug, extra), '-fsyntax-only', p],
                           capture_output=True, text=True)
        return r.returncode == 0, r.stderr
    finally:
        os.unlink(p)

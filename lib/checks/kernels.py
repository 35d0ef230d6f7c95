"""P24: every kernel adds the exact product of the packed blocks it is given
to its result block."""
import os
import re
import subprocess
import sys

import asm
import asmeval
import build
from lane import Ptr, Unsupported, V, C, show, width, sext, zext, is_c, _key as KEY
from poly import Norm
from walk import Walk, Failed
from checks.gemm import add
from checks.pack import offset

sys.setrecursionlimit(100000)
CONFIGS = ['x86', 'sse4', 'avx2', 'aarch64', 'armhf', 'aarch64+dotprod', 'i686+sse4', 'mips64+msa', 'mips32+msa']
SLACK = 64    # the slice sums follow the packed data in the same buffer


def names(cfg):
    """the kernel classes of this configuration and those derived from them"""
    from checks.asmcheck import kernels
    ks, _ = kernels(cfg)
    src = os.path.join(build.VERIF, 'drivers', 'kernel.cc')
    r = subprocess.run(['clang++', *build.clang_flags(cfg), '-E', '-P', src],
                       capture_output=True, text=True, errors='replace')
    if r.returncode:
        raise build.AnalysisBroken('kernel.cc does not preprocess for %s: %s' % (cfg, r.stderr[-1500:]))
    text = r.stdout
    ks = [k for k in ks if re.search(r'\b(struct|class)\s+%s\b' % k, text)]
    more = True
    while more:
        more = False
        for m in re.finditer(r'\b(?:struct|class)\s+(\w+)\s*(?:final\s*)?:\s*(?:public\s+)?(\w+)\s*\{', text):
            if m[2] in ks and m[1] not in ks:
                ks.append(m[1])
                more = True
    return ks


class Kernel(Walk):
    limit = 5000000

    def __init__(self, fn, rs, start, depth, lsize, rsize, dst, used):
        bits = 64 if fn.args[1]['t'] == 'i64' else 32
        self.lim = {'lhs': lsize, 'rhs': rsize}
        self.dst = dst
        cs = V(('cs',), bits)
        args = [Ptr('dst'), C(rs, bits) if rs else V(('rs',), bits), cs, Ptr('lhs'), Ptr('rhs'), C(start, bits),
                C(depth, bits)]
        super().__init__(fn, args=args, elt=lambda b: 8 if b in ('lhs', 'rhs') or b[:4] == 'allo' else 32)
        # packed blocks are padded with zeros up to the register size (P21, P22)
        self.mem0.const = lambda v: C(0, 8) if isinstance(v[2], tuple) and v[2][0] in self.lim and \
            used[v[2][0]] <= v[2][2] < self.lim[v[2][0]] else v

    def load(self, p, n, bits):
        if p.base in self.lim:
            if p.sym or p.off < 0 or p.off + n > self.lim[p.base] + SLACK:
                raise Failed('reads byte %d..%d of the packed %s block of %d bytes' % (
                    p.off, p.off + n - 1, p.base, self.lim[p.base]))
        elif p.base == 'dst':
            self.indst(p, n, 'reads')
        return super().load(p, n, bits)

    def indst(self, p, n, what):
        for k in range(0, n, 4):
            if (p.sym, p.off + k) not in self.dst:
                raise Failed('%s %r, outside the result block' % (what, p.add((), k)))

    def store(self, p, t, i):
        if p.base == 'dst':
            if width(t) < 32 or p.off % 4:
                raise Unsupported('partial store')
            self.indst(p, width(t) // 8, 'writes')
        elif not p.base.startswith('alloca'):
            raise Failed('writes to %r' % p)
        super().store(p, t, i)

    def call(self, i, ty):
        if i.is_asm():
            a = asm.Asm(i.callee[1], i.callee[2], asm.arch_of(self.fn.mod.triple))
            self.where = i.loc()
            self.na = len(a.insts)
            outs = asmeval.run(self, i, a)
            vs = []
            tys = ty[1] if ty[0] == 'st' else [ty]
            for o, t in zip(outs, tys):
                if o is None:
                    vs.append(V('undef', 32))
                elif t[0] == 'ptr':
                    vs.append(o)
                elif o.base or o.sym:
                    vs.append(V('undef', t[1]))
                else:
                    vs.append(C(o.off, t[1]))
            return vs if ty[0] == 'st' else vs[0] if vs else None
        n = i.callee_name()
        if n in ('__assert_fail', 'abort'):
            raise Failed('%s is reached at %s' % (n, i.loc()))
        return super().call(i, ty)


class KNorm(Norm):
    """ranges: one side of the LhsNonzero kernels is at least -127; products of
    the 12-bit kernel are at most 4095"""
    nonzero = None
    small = False

    def limits(self, t, signed):
        if t[0] == 'v' and isinstance(t[2], tuple) and t[2][0] == self.nonzero and signed:
            return (-127, 127)
        return None

    def monomial(self, k):
        if self.small and len(k) == 2:
            return (0, 4095)
        return None


def work(m, tier):
    out = []
    for name, fn in sorted(m.funcs.items()):
        mm = re.fullmatch(r'vp_kernel_(\w+)', name)
        if not mm:
            continue
        g = m.globals['vp_format_' + mm[1]]
        f = [x[1] for x in g['init'][1]]
        ref = mm[1].startswith('ref__')
        unit = f[1]
        reg = f[12]
        if unit < reg:
            depths = list(range(unit, reg + 2 * unit + 1, unit)) + [2 * reg, 3 * reg - unit, 4 * reg]
            if tier != 'quick':
                depths = list(range(unit, 4 * reg + 2 * unit + 1, unit)) + [8 * reg, 16 * reg + unit]
        else:
            depths = [unit * c for c in ((1, 2, 3, 4, 5, 8) if tier == 'quick' else list(range(1, 17)) + [32])]
        for c in depths:
            for start in (0, unit, 7 * unit) if tier != 'quick' else (0, max(unit, reg)):
                for rs in ((1,) if not ref else (1, 0)):
                    out.append((m, fn, mm[1], tuple(f), rs, start, c))
    return out


def one(rep, item):
    m, fn, name, f, rs, start, depth = item
    order = {f[10]: 'D', f[11]: 'W'}
    lf = (f[0], f[1], order.get(f[2], 'G'), f[3])
    rf = (f[5], f[6], order.get(f[7], 'G'), f[8])
    kr, kc = lf[0] * lf[3], rf[0] * rf[3]
    cs = V(('cs',), 64 if fn.args[1]['t'] == 'i64' else 32)
    rsv = V(('rs',), width(cs))
    dst = {}
    for i in range(kr):
        for j in range(kc):
            p = Ptr('dst').add(([(cs, 4 * j)] if j else []) + ([(rsv, 4 * i)] if i and not rs else []),
                               4 * i * rs)
            dst[p.sym, p.off] = (i, j)
    short = name.replace('ref__', 'ReferenceKernel ')
    what = '%s::Run, start_depth %s 0, run_depth %d' % (short, '==' if not start else '>', depth)
    key = '%s %s' % (short, 'first' if not start else 'accumulate')
    rep.functions.add(short + '::Run')
    full = -(-depth // f[12]) * f[12] if not name.startswith('ref__') else depth
    ev = Kernel(fn, rs, start, depth, kr * full, kc * full, dst, {'lhs': kr * depth, 'rhs': kc * depth})
    try:
        ev.run()
    except Failed as x:
        rep.bad('access', key, '%s (%s)' % (getattr(ev, 'where', 'internal/kernel_reference.h'), what), str(x), m.cfg)
        return
    except Unsupported as x:
        rep.unk('value', '%s [%s]' % (what, m.cfg), str(x))
        return
    rep.ok('access')
    rep.stat('asm instructions interpreted', getattr(ev, 'asm_steps', 0))
    where = '%s (%s)' % (getattr(ev, 'where', 'internal/kernel_reference.h'), what)
    nms = [KNorm() for _ in range(2 if 'LhsNonzero' in name else 1)]
    for nm, side in zip(nms, ('lhs', 'rhs')):
        nm.nonzero = side if len(nms) > 1 else None
        nm.small = '12BitProducts' in name
    el = sext if f[4] else zext
    er = sext if f[9] else zext

    def pk(b, fm, e, w, d):
        cw, cd, o, cells = fm
        k = (d // cd * cells + w // cw) * cw * cd + offset(o, cw, cd, w % cw, d % cd)
        return e(V((b, (), k), 8), 32)
    L = [[pk('lhs', lf, el, i, d) for d in range(depth)] for i in range(kr)]
    R = [[pk('rhs', rf, er, j, d) for d in range(depth)] for j in range(kc)]
    nbad = 0
    for (sym, o), (i, j) in dst.items():
        t = ev.mem.load(Ptr('dst', sym, o), 4)
        e = {}
        for x, y in zip(L[i], R[j]):
            add(e, tuple(sorted((x, y), key=KEY)), 1)
        old = V(('dst', sym, o // 4), 32)
        if start:
            add(e, (old,), 1)
        for nm in nms:
            p = nm.poly(t)
            if p != e:
                break
        else:
            rep.ok('value')
            continue
        msg = 'element (%d, %d)' % (i, j)
        miss = [k for k in e if p.get(k) != e[k]]
        extra = [k for k in p if k not in e]
        if t == old:
            msg += ' is never written'
        elif miss:
            msg += ' lacks or miscounts the term %s' % '*'.join(show(x) for x in miss[0])
        elif extra:
            msg += ' has the extra term %s' % '*'.join(show(x)[:80] for x in extra[0])
        nbad += 1
        if plain(p):
            rep.bad('value', key, where, msg, m.cfg)
        else:
            r = refute(t, e, nm)
            if r:
                rep.bad('value', key, where, '%s: %s' % (msg, r), m.cfg)
            else:
                rep.unk('value', '%s [%s]' % (where, m.cfg), msg)
        if nbad > 3:
            break


def plain(p):
    for k in p:
        for a in k:
            x = a[2] if a[0] in ('zext', 'sext') else a
            if x[0] != 'v':
                return False
    return True


def refute(t, e, nm):
    """a packed content within the kernel's precondition on which the two
    differ, from a few extreme contents"""
    from poly import peval
    hi = 127
    for lo, ro in ((255, 255), (128, 128), (127, 127), (129, 128), (129, 127), (127, 128), (1, 255), (255, 1),
                   (63, 65), (15, 255), (255, 16), (16, 255), (1, 1)):
        if nm.nonzero == 'lhs' and lo == 128 or nm.nonzero == 'rhs' and ro == 128:
            continue
        if nm.small and lo * ro > 4095:
            continue
        env = {'lhs': lo, 'rhs': ro, 'dst': 12345}

        def val(v):
            return env[v[2][0]] if isinstance(v[2], tuple) and v[2][0] in env else 0
        try:
            got = peval(t, val) & 0xffffffff
        except ValueError:
            return None
        want = 0
        for k, c in e.items():
            x = c
            for a in k:
                y = peval(a, val)
                x *= y
            want += x
        want &= 0xffffffff
        if got != want:
            return 'with every packed lhs byte %d and rhs byte %d the result is %d instead of %d' % (
                lo, ro, got, want)
    return None


def kernels(rep, tier):
    rep.rule('value', 'after Run(), each element of the result block is the exact dot product of its packed '
                      'row and column, plus its previous value unless start_depth is 0', 1000)
    rep.rule('access', 'Run() reads only the buffers of the packed blocks it is given (and, unless start_depth is '
                       '0, the result block) and writes only the result block', 10)
    items = []
    for cfg in CONFIGS:
        ks = names(cfg)
        ex = ['-DVP_KERNELS(X)=' + ' '.join('X(%s)' % k for k in ks)] if ks else []
        m = build.module('kernel.cc', cfg, extra=ex, scev=False)
        rep.units.add('drivers/kernel.cc [%s]' % m.cfg)
        items += work(m, tier)
    items.sort(key=lambda x: -x[-1] * x[3][0] * x[3][3] * x[3][5] * x[3][8])
    rep.parallel(items, one)
    rep.notes += ['run_depth is a positive multiple of the kernel depth and the packed blocks are padded with zeros up to '
                  'the register size, as packing and block computation guarantee (P21, P22)',
                  'one side given to the LhsNonzero kernels (either: operands may be swapped) has no value -128, the '
                  'products given to the 12-bit kernel are below 4096',
                  'the columns of the result block do not overlap']
    return ['clang 18 front end and LLVM normalisation', 'the instruction models in lib/asmeval.py',
            'lib/checks/kernels.py']

"""P22: the blocked multiplication around the kernel: every result element is
the exact product for every content of the operands."""
import random
import re
import sys

import build
from lane import Ptr, Unsupported, V, C, B, mk, show, width, ex, sext, zext, is_c, flat
from poly import Norm
from walk import Walk, Failed, f2i
from checks.pack import offset

sys.setrecursionlimit(100000)
KEEP = ('HowManyThreads<',)
CONFIGS = ['x86', 'sse4', 'avx2', 'aarch64', 'armhf', 'mips64+msa']
#        kind, lhs (cell width, depth, order, cells), rhs (...)
FORMATS = {
    'K4x4d16': ('U', (4, 16, 'W', 1), (4, 16, 'W', 1)),
    'K12x4d2': ('U', (4, 2, 'W', 3), (4, 2, 'W', 1)),
    'K12x8d2': ('U', (4, 2, 'W', 3), (4, 2, 'W', 2)),
    'K24x8d2': ('U', (8, 2, 'W', 3), (8, 2, 'W', 1)),
    'D12x8d2': ('U', (4, 2, 'D', 3), (4, 2, 'D', 2)),
    'D12x4d2': ('U', (4, 2, 'D', 3), (4, 2, 'D', 1)),
    'S4x4d16': ('S', (4, 16, 'W', 1), (4, 16, 'W', 1)),
    'S4x2d16': ('S', (4, 16, 'W', 1), (2, 16, 'W', 1)),
    'D6x5d4': ('U', (3, 4, 'D', 2), (5, 4, 'D', 1)),
}
NAMES = ['lhs', 'ls', 'rhs', 'rs', 'dst', 'ds', 'lo', 'ro', 'rowbias', 'colbias']


class Gemm(Walk):
    """walks one blocked multiplication"""

    def __init__(self, fn, fmt, rows, cols, depth, l1, l2, f, threads, forced):
        self.forced = forced
        self.kind, self.lf, self.rf = FORMATS[fmt]
        self.heap = {}
        self.nheap = 0
        self.kcalls = 0
        self.tasks = []
        self.touched = set()
        self.reg = 32 if fn.mod.cfg == 'avx2' else 16
        self.psize = 8 if '64' in fn.mod.cfg or fn.mod.cfg in ('x86', 'sse4', 'avx2') else 4
        args = []
        for n in NAMES:
            args.append(Ptr(n) if n not in ('ls', 'rs', 'ds') else V((n,), 32))
        args += [C(x, 32) for x in (rows, cols, depth, l1, l2)]
        args += [C(f2i(f, 32), 32), C(threads, 32)]
        super().__init__(fn, args=args, elt=lambda b: 8 if b in ('lhs', 'rhs') or b[:4] in ('heap', 'allo') else 32,
                         calls=None)
        self.call_model = self.model
        self.flags = {}

    # -- memory ------------------------------------------------------------
    def bound(self, p, n, what):
        if p.base.startswith('heap'):
            size = self.heap.get(p.base)
            if size is None:
                raise Failed('%s a released buffer' % what)
            if p.sym or p.off < 0 or p.off + n > size:
                raise Failed('%s byte %d of a buffer of %d bytes' % (what, p.off, size))

    def load(self, p, n, bits):
        if p.base in ('lhs', 'rhs'):
            for k in range(n):
                self.touched.add((p.base, p.sym, p.off + k))
        elif p.base.startswith('heap'):
            self.bound(p, n, 'reads')
        return super().load(p, n, bits)

    def store(self, p, t, i):
        if p.base.startswith('heap'):
            self.bound(p, width(t) // 8, 'writes')
        elif p.base in ('lhs', 'rhs', 'lo', 'ro', 'rowbias', 'colbias', 'null', 'undef'):
            raise Failed('writes to %r' % p)
        super().store(p, t, i)

    def alloc(self, size):
        self.nheap += 1
        b = 'heap%d' % self.nheap
        self.heap[b] = size
        return Ptr(b)

    def model(self, ev, i, n, a):
        if n == 'posix_memalign':
            self.mem.w.setdefault((a[0].base, a[0].sym), {})[('p', a[0].off)] = self.alloc(a[2][2])
            return C(0, 32)
        if n in ('_Znwm', '_Znwj'):
            return self.alloc(a[0][2])
        if n in ('_ZdlPv', 'free', '_ZdlPvm', '_ZdlPvj'):
            if a[0].base != 'null':
                if a[0].off or a[0].sym or a[0].base not in self.heap:
                    raise Failed('releases %r' % a[0])
                del self.heap[a[0].base]
            return None
        if n == 'vp_task':
            self.tasks.append([])
            return None
        if n in ('__assert_fail', 'abort', '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv'):
            raise Failed('%s is reached at %s' % (n, i.loc()))
        if 'HowManyThreads' in n:
            if self.forced:
                return C(self.forced, 32)
            r = Walk(self.fn.mod.funcs[n], args=list(a)).run()
            return r.ret
        if n == 'fprintf':
            return C(0, 32)
        return NotImplemented

    def call(self, i, ty):
        if i.callee_name() is None and not i.is_asm():
            f = self.ref(i.callee)
            m = re.fullmatch(r'\*\(_ZTV8Announce\S*?\+(\d+)\)', f.base)
            if not m or int(m[1]) != 3 * self.psize:
                raise Unsupported('indirect call of %r' % f)
            self.kernel(*[self.ref(x) for x in i.ops[1:]])
            return None
        return super().call(i, ty)

    def packed(self, fmt, p, w, d, memo):
        """the value the kernel sees at width w, depth d of its run"""
        cw, cd, order, cells = fmt
        o = (d // cd * cells + w // cw) * cw * cd + offset(order, cw, cd, w % cw, d % cd)
        k = (p.off + o)
        if k not in memo:
            t = self.load(p.add((), o), 1, 8)
            memo[k] = sext(t, 32) if self.kind == 'S' else zext(t, 32)
        return memo[k]

    def kernel(self, dst, rs, cs, lhs, rhs, sd, rd):
        self.kcalls += 1
        for x in (rs, cs, sd, rd):
            if not is_c(x):
                raise Unsupported('kernel argument %r' % (x,))
        if rd[2] <= 0 or rd[2] % self.lf[1]:
            raise Failed('the kernel is run over depth %d, not a positive multiple of its depth' % rd[2])
        kr, kc = self.lf[0] * self.lf[3], self.rf[0] * self.rf[3]
        ml, mr = {}, {}
        zero = sd[2] == 0
        # kernels may run on to the register size
        pad = range(rd[2], -(-rd[2] // self.reg) * self.reg)
        z = C(0, 32)
        pl = [{d for d in pad if self.packed(self.lf, lhs, w, d, ml) != z} for w in range(kr)]
        pr = [{d for d in pad if self.packed(self.rf, rhs, w, d, mr) != z} for w in range(kc)]
        for i in range(kr):
            for j in range(kc):
                p = dst.add((), 4 * (i * rs[2] + j * cs[2]))
                if pl[i] & pr[j]:
                    self.store(p, V(('unpadded', self.kcalls, i, j), 32), None)
                    continue
                acc = C(0, 32) if zero else self.load(p, 4, 32)
                xs = tuple((self.packed(self.lf, lhs, i, d, ml), self.packed(self.rf, rhs, j, d, mr))
                           for d in range(rd[2]))
                t = mk('fn', 32, 'dot', DOT.setdefault(xs, len(DOT)))
                LIST[DOT[xs]] = xs
                self.store(p, t if zero else B('add', acc, t), None)


DOT, LIST = {}, {}


class DotNorm(Norm):
    """polynomials in which a kernel call contributes its exact dot product"""

    def poly(self, t):
        if t[0] == 'fn' and t[2] == 'dot' and t not in self.memo:
            r = {}
            for a, b in LIST[t[3]]:
                for k, v in self.poly(a).items():
                    for q, u in self.poly(b).items():
                        add(r, tuple(sorted(k + q, key=KEY)), u * v)
            self.memo[t] = r
        return super().poly(t)


from lane import _key as KEY  # noqa: E402
M32 = (1 << 32) - 1


def add(r, k, v):
    x = (r.get(k, 0) + v) & M32
    if x:
        r[k] = x
    else:
        r.pop(k, None)


def shapes(tier, seed, name, kind, kr, kc, reg):
    """(rows, cols, depth, l1, l2, factor, threads, forced): forced thread
    counts replace the choice of HowManyThreads"""
    big = (16384, 393216, .75)
    r = []
    rnd = random.Random('%s %s' % (seed, name))
    more = tier != 'quick'
    sweep = more or kind == 'st' and name.startswith(('x86', 'aarch64')) and not name.endswith('RRR')
    if kind != 'mt':
        # around the kernel size
        for rows, cols, depth in ((1, 1, 1), (kr, kc, reg), (kr + 1, kc + 1, reg + 1), (kr - 1, kc - 1, reg - 1),
                                  (2 * kr + 3, 2 * kc + 1, 3), (17, 13, 2 * reg + 5), (9, 9, 7), (12, 8, 20),
                                  (kr, 1, 2 * reg), (23, 5, 1), (15, 15, 33), (30, 11, 9)):
            r.append((rows, cols, depth) + big)
        # every remainder of the unpacking tiles
        for i in range(8 if sweep else 0):
            for j in range(8):
                cols = j + 8 * rnd.randrange(3 if more else 2) or 16
                rows = i + 8 * rnd.randrange(4)
                while rows < cols:
                    rows += 8
                r.append((rows, cols, rnd.choice((1, 2, 5))) + big)
        # every remainder of the depth
        for d in range(1, 2 * reg + 2, 1 if sweep else 5):
            r.append((max(kr, kc) + rnd.randrange(3), kc + rnd.randrange(-1, 2), d) + big)
        # small caches: several blocks in each direction
        r += [(2 * kr + 5, 2 * kc + 3, 2 * reg + 3, 256, 1024, .75),
              (3 * kr + 1, kc + 1, 5 * reg + 1, 64, 512, .5),
              (2 * kr, 2 * kc, 4 * reg, 512, 2048, 1.0),
              (kr + 2, 3 * kc, 3 * reg, 128, 4096, .9)]
        for _ in range(60 if more else 12):
            rows, cols, depth = 100, 100, 100
            while rows * cols * depth > (100000 if more else 16000):
                rows, cols, depth = rnd.randrange(1, 4 * kr), rnd.randrange(1, 4 * kc), rnd.randrange(1, 5 * reg)
            r.append((rows, cols, depth,
                      rnd.choice((32, 64, 128, 300, 512, 1024, 4000)),
                      rnd.choice((256, 512, 1024, 3000, 8192)), rnd.choice((.25, .5, .75, .9, 1.0))))
        r = [x + (1, 0) for x in r]
    else:
        r += [(40, 40, 90, 4096, 16384, .75, 2, 0), (20, 20, 20, 16384, 393216, .75, 4, 0)]
        if more or name.startswith(('x86', 'aarch64')):
            r += [(50, 37, 111, 16384, 393216, .75, 3, 0), (35, 33, 120, 16384, 393216, 1.0, 4, 0)]
        step = max(kr, 16)
        for t in (2, 3, 4, 5, 7):
            for _ in range(12 if more else 5):
                rows = step * (t - 1) + rnd.randrange(1, step + 9)
                l = rnd.choice(((16384, 393216), (512, 2048), (128, 1024)))
                r.append((rows, rnd.choice((1, kc, kc + 1, 2 * kc + 3)), rnd.choice((1, 3, reg + 1))) + l +
                         (rnd.choice((.75, .5, 1.0)), t, t))
    return [x for x in dict.fromkeys(r) if x[0] >= x[1] > 0 and x[2] > 0]


def gemm(rep, tier):
    rep.rule('value', 'every result element is the exact sum of products of the offset operand elements of its '
                      'row and column, passed through the pipeline with its own row\'s and column\'s parameters', 1000)
    rep.rule('access', 'only operand elements are read, only result elements are written, and the packed '
                       'buffers are used within their size', 10)
    build.prefetch([('gemm.cc', c) for c in CONFIGS], scev=False, keep=KEEP)
    work = []
    for cfg in CONFIGS:
        m = build.module('gemm.cc', cfg, scev=False, keep=KEEP)
        rep.units.add('drivers/gemm.cc [%s]' % m.cfg)
        for name, fn in sorted(m.funcs.items()):
            mm = re.fullmatch(r'vp__(st|sd|mt)__(\w+?)__([RC])([RC])([RC])', name)
            if not mm:
                continue
            _, lf, rf = FORMATS[mm[2]]
            reg = 32 if cfg == 'avx2' else 16
            for sh in shapes(tier, rep.seed, cfg + name, mm[1], lf[0] * lf[3], rf[0] * rf[3], reg):
                work.append((m, fn, mm[1], mm[2], mm[3], mm[4], mm[5], sh))
    work.sort(key=lambda x: -x[-1][0] * x[-1][1] * x[-1][2])
    rep.parallel(work, one)
    return ['clang 18 front end and LLVM normalisation', 'the models of SIMD intrinsics in lib/lane.py',
            'kernels compute the exact product of the packed blocks they are given',
            'distinct allocations do not overlap', 'the pool runs each task once (P08)']


def one(rep, item):
    m, fn, kind, fmt, lo, ro, do, sh = item
    rows, cols, depth, l1, l2, f, threads, forced = sh
    what = '%s, kernel format %s, lhs/rhs/result %s, %dx%dx%d (l1=%d l2=%d rhs factor %g, %d threads)' % (
        'SingleThreadGemm' if kind != 'mt' else 'MultiThreadGemm', fmt,
        '/'.join({'R': 'RowMajor', 'C': 'ColMajor'}[x] for x in (lo, ro, do)), rows, depth, cols, l1, l2, f, threads)
    key = '%s %s %s%s%s' % (kind, fmt, lo, ro, do)
    where = 'internal/%s_thread_gemm.h: %s' % ('single' if kind != 'mt' else 'multi', what)
    rep.functions.add('%s %s %s%s%s' % (kind, fmt, lo, ro, do))
    try:
        ev = Gemm(fn, fmt, *sh).run()
    except Failed as x:
        rep.bad('access', key, where, str(x), m.cfg)
        return
    except Unsupported as x:
        rep.unk('value', '%s [%s]' % (where, m.cfg), str(x))
        return
    ls, rs, ds = (V((n,), 32) for n in ('ls', 'rs', 'ds'))

    def at(order, stride, r, c):
        a, b = (r, c) if order == 'R' else (c, r)
        return ((stride, a),) if a else (), b
    # accesses
    ok = True
    L = {('lhs',) + at(lo, ls, r, d) for r in range(rows) for d in range(depth)}
    R = {('rhs',) + at(ro, rs, d, c) for d in range(depth) for c in range(cols)}
    stray = ev.touched - L - R
    if stray:
        rep.bad('access', key, where, 'reads %s%s%+d, outside the operand' % (
            min(stray)[0], ''.join('+%d*stride' % c for _, c in min(stray)[1]), min(stray)[2]), m.cfg)
        ok = False
    D = {}
    for r in range(rows):
        for c in range(cols):
            s, o = at(do, ds, r, c)
            D[tuple((t, 4 * k) for t, k in s), 4 * o] = (r, c)
    for (b, sym), ws in ((k, v) for k, v in ev.mem.w.items()):
        if b == 'dst':
            for o in ws:
                if (sym, o - o % 4) not in D:
                    rep.bad('access', key, where, 'writes outside the result: byte %d%s' % (
                        o, ''.join('+%d*stride' % c for _, c in sym)), m.cfg)
                    ok = False
                    break
        elif not b.startswith(('heap', 'alloca')):
            rep.bad('access', key, where, 'writes to %s' % b, m.cfg)
            ok = False
    if ev.heap:
        rep.bad('access', key, where, '%d buffers are never released' % len(ev.heap), m.cfg)
        ok = False
    if ok:
        rep.ok('access')
    # values
    nm = DotNorm()
    dup = kind == 'sd'

    def vec(n, k):
        return V((n, (), k), 32)

    def elem(n, order, stride, r, c):
        return zext(V((n,) + at(order, stride, r, c), 8), 32)
    sl = [[elem('lhs', lo, ls, r, d) for d in range(depth)] for r in range(rows)]
    sr = [[elem('rhs', ro, rs, d, c) for d in range(depth)] for c in range(cols)]
    nbad = 0
    for (sym, o), (r, c) in D.items():
        t = ev.mem.load(Ptr('dst', sym, o), 4)
        e = {}
        a, b = vec('lo', 0 if dup else r), vec('ro', 0 if dup else c)
        for x, y in zip(sl[r], sr[c]):
            add(e, tuple(sorted((x, y), key=KEY)), 1)
            add(e, tuple(sorted((x, b), key=KEY)), 1)
            add(e, tuple(sorted((a, y), key=KEY)), 1)
        add(e, tuple(sorted((a, b), key=KEY)), depth)
        add(e, (vec('colbias', r),), 1)
        add(e, (vec('rowbias', c),), 1)
        if width(t) == 32 and nm.poly(t) == e:
            rep.ok('value')
            continue
        p = nm.poly(t) if width(t) == 32 else {}
        miss = [k for k in e if p.get(k) != e[k]]
        extra = [k for k in p if k not in e]
        msg = 'element (%d, %d)' % (r, c)
        if ('dst', sym, o // 4) == t[2:3] or t == V(('dst', sym, o // 4), 32):
            msg += ' is never written'
        elif miss:
            msg += ' lacks or miscounts the term %s' % '*'.join(show(x) for x in miss[0])
        elif extra:
            msg += ' has the extra term %s' % '*'.join(show(x)[:80] for x in extra[0])
        nbad += 1
        if linear_ok(p, e):
            rep.bad('value', key, where, msg, m.cfg)
        else:
            rep.unk('value', '%s [%s]' % (where, m.cfg), msg)
        if nbad > 3:
            break


def linear_ok(p, e):
    """both sides are polynomials in plain contents: a difference is real"""
    for k in p:
        for a in k:
            x = a[2] if a[0] in ('zext', 'sext') else a
            if x[0] != 'v':
                return False
    return True

"""P19: the int32 result block: offsets applied exactly, each value at its own
position.  P20: the output pipeline stages, element by element."""
import random
import re

import build
from lane import (_key, Eval, Ptr, Unsupported, V, C, B, mk, show, variables, width, ex, cmp, sel, sext, rename,
                  rebuild, subterms, sgn, TRUE, is_c, flat, unflat, parse_type, tbits)
from poly import Norm, peval
from region import decide

CONFIGS = ['x86', 'sse4', 'avx2', 'aarch64', 'armhf', 'mips64+msa', 'wasm32+simd']
ZP = {'FmtU': (0, 0), 'FmtS': (128, 128), 'FmtM': (128, 0), 'FmtI': (0, 0)}


def A(k, w=32):
    return V(('arg%d' % k,), w)


def lin(*terms, elt=4, off=0):
    """frozen linear form of sum(coef * product of args), scaled by element size"""
    t = C(0, 64)
    d, c = {}, off
    for f in terms:
        co, *vs = f
        if not vs:
            c += co
            continue
        k = vs[0] if len(vs) == 1 else mk('prod', 0, *sorted(vs, key=_key))
        d[k] = d.get(k, 0) + co
    return tuple(sorted(((k, v * elt) for k, v in d.items() if v), key=repr)), c * elt


def var_at(base, terms, elt=4):
    """the initial contents of the element at a linear index"""
    sym, off = lin(*terms, elt=elt)
    return V((base, sym, off // elt), 8 * elt)


def written(ev, base, elt):
    """elements stored to `base`: {(sym, offset)}: every byte accounted for"""
    out = {}
    for (b, sym), ws in ev.mem.w.items():
        if b != base:
            continue
        for o in ws:
            if isinstance(o, tuple):
                continue
            out.setdefault((sym, o // elt * elt), set()).add(o % elt)
    return out


def norm_ptr(sym, off):
    return sym, off


def plain(sym):
    """an address built from arguments and their products only"""
    return all(k[0] == 'v' or k[0] == 'prod' and all(x[0] == 'v' for x in k[2:]) for k, _ in sym)


def dst_index(order, i, j, dr, dc, ds):
    """linear index of element (dr+i, dc+j)"""
    if order == 'RowMajor':
        return [(1, dr, ds), (1, dc), (i, ds), (j,)]
    return [(1, dc, ds), (1, dr), (j, ds), (i,)]


def differ(nm, t, s):
    """None if the terms are equal as polynomials; a witness if they differ at
    a point; 'unknown' otherwise"""
    if nm.equal(t, s):
        return None
    vs = sorted(variables(t) | variables(s), key=repr)
    rnd = random.Random(7)
    for k in range(60):
        env = {v: rnd.choice((0, 1, -1, 2, 127, 128, 255, 3, rnd.getrandbits(v[1]))) for v in vs}
        try:
            x, y = peval(t, env.get), peval(s, env.get)
        except ValueError:
            return 'unknown'
        if x != y:
            return 'computed %d, expected %d' % (x, y)
    return 'unknown'


def offsets(rep, tier):
    rep.rule('position', 'a block stores exactly its own elements of the destination', 100)
    rep.rule('value', 'element (i, j) is acc + lhs_sum[i]*roff + (rhs_sum[j] + depth*roff)*loff with its '
                      'own sums and offsets, modulo 2^32', 500)
    for cfg in CONFIGS:
        m = build.module('unpack.cc', cfg, scev=False, passes='unroll')
        rep.units.add('drivers/unpack.cc [%s]' % m.cfg)
        nm = Norm()
        for name, fn in sorted(m.funcs.items()):
            mm = re.fullmatch(r'vp__u__(\w+?)__(\d)_(\d)__(\w+?)__([vd])', name)
            if not mm:
                continue
            fmt, R, Cc, order, kind = mm[1], int(mm[2]), int(mm[3]), mm[4], mm[5]
            what = 'UnpackResultBlock<%s, %dx%d>, %s destination' % (fmt, R, Cc, order)
            where = 'internal/unpack.h: ' + what
            rep.functions.add(what)
            try:
                ev = Eval(fn, elt=lambda b: 32, calls=asm_model).run()
            except Unsupported as x:
                rep.unk('position', '%s [%s]' % (where, cfg), str(x))
                continue
            ss, ds, depth, r, c, dr, dc = A(1), A(3), A(8), A(9), A(10), A(13), A(14)
            zl, zr = ZP[fmt]
            want = {}
            for i in range(R):
                for j in range(Cc):
                    want[lin(*dst_index(order, i, j, dr, dc, ds))] = (i, j)
            got = written(ev, 'arg2', 4)
            extra = [k for k in got if k not in want]
            miss = [v for k, v in want.items() if k not in got]
            if any(not plain(k[0]) for k in extra):
                rep.unk('position', where, 'address %s' % (Ptr('dst', *extra[0]),))
                continue
            if extra or miss:
                rep.bad('position', '%s %dx%d %s' % (fmt, R, Cc, order), where,
                        ('element %s is never stored' % (miss[0],) if miss else '') +
                        (' a store lands at byte %s' % (Ptr('dst', *extra[0]),) if extra else ''), cfg)
                continue
            rep.ok('position')
            for key, (i, j) in want.items():
                t = ev.mem.load(Ptr('arg2', *key), 4)
                acc = var_at('arg0', [(1, c, ss), (1, r), (j, ss), (i,)])
                ls = var_at('arg4', [(1, r), (i,)])
                rs = var_at('arg5', [(1, c), (j,)])
                lo = var_at('arg6', [(1, r), (i,)] if kind == 'v' else [(0,)])
                ro = var_at('arg7', [(1, c), (j,)] if kind == 'v' else [(0,)])
                lo, ro = B('add', lo, C(zl, 32)), B('add', ro, C(zr, 32))
                s = B('add', acc, B('add', B('mul', ls, ro),
                                    B('mul', B('add', rs, B('mul', depth, ro)), lo)))
                d = differ(nm, t, s)
                if d is None:
                    rep.ok('value')
                elif d == 'unknown':
                    rep.unk('value', where, 'element (%d, %d)' % (i, j))
                else:
                    rep.bad('value', '%s %dx%d %s' % (fmt, R, Cc, order), where,
                            'element (%d, %d) of the block: %s' % (i, j, d), cfg)
    return ['clang 18 front end and LLVM normalisation', 'the models of SIMD intrinsics in lib/lane.py',
            'indices do not overflow int']


def asm_model(ev, i, n, a):
    return NotImplemented


# ---------------------------------------------------------------------------
# P20: output pipelines

EXPONENTS = [-3, 0, 5, -31, 2, -1, 1, -12, 4, -7]


def s_srdhm(x, m):
    from checks.fixed import spec_srdhm
    return ex(spec_srdhm(x, m, 32), 0, 32)


def s_rdiv(x, e):
    from checks.fixed import spec_rdiv
    return ex(spec_rdiv(x, e, 32), 0, 32)


def s_fits(x, k):
    """x << k does not overflow"""
    if k == 0:
        return None
    W = 72
    t = B('shl', sext(x, W), C(k, W))
    return B('and', cmp('sge', t, C(-2**31, W)), cmp('sle', t, C(2**31 - 1, W)))


def s_sat(x, lo, hi, w):
    return ex(sel(cmp('slt', x, C(lo, 32)), C(lo, 32), sel(cmp('sgt', x, C(hi, 32)), C(hi, 32), x)), 0, w)


def stages(name):
    """the stages of a driver pipeline, as micro-operations"""
    m = re.fullmatch(r'([a-zA-Z]+\d*?)(?:_([mp]?)(\d+))?', name)
    base, e = m[1], (None if m[3] is None else int(m[3]) * (-1 if m[2] == 'm' else 1))
    def p(k): return ('scalar', 'arg7', k)
    def col(a): return ('row', a)          # one parameter per row
    def row(a): return ('col', a)          # one parameter per column

    def scale(e): return [('add', p(0)), ('mul', p(1)), ('rdiv', e)]

    def fix(e): return [('srdhm', p(0)), ('rdiv', e), ('add', p(1))]
    clamp = [('clamp', p(2), p(3))]
    u8, i16, i8 = [('sat', 0, 255, 8)], [('sat', -32768, 32767, 16)], [('sat', -128, 127, 8)]
    if name == 'biasC': return [('add', col('arg7'))]
    if name == 'biasR': return [('add', row('arg7'))]
    if name == 'biasRC': return [('add', row('arg7')), ('add', col('arg8'))]
    if base == 'scale': return scale(e)
    if base == 'scaleC': return [('add', col('arg7')), ('mul', col('arg8')), ('rdiv', e)]
    if base == 'scaleR': return [('add', row('arg7')), ('mul', row('arg8')), ('rdiv', e)]
    if base == 'fix': return fix(e)
    if base == 'fixe': return [('shl', max(0, e)), ('srdhm', p(0)), ('rdiv', max(0, -e)), ('add', p(1))]
    if name == 'fixeC': return [('shl', 'row'), ('srdhm', col('arg8')), ('rdiv', 'row'), ('add', p(1))]
    if name == 'fixeR': return [('shl', 'col'), ('srdhm', row('arg8')), ('rdiv', 'col'), ('add', p(1))]
    if name == 'clamp': return clamp
    if name == 'satu8': return u8
    if name == 'sati16': return i16
    if name == 'sati8': return i8
    if name == 'truncu8': return [('trunc', 8)]
    if name == 'chain1': return [('add', col('arg8'))] + scale(5) + u8
    if name == 'chain2': return fix(4) + [('add', row('arg8'))] + clamp + i16
    if name == 'chain3': return [('add', col('arg8'))] + clamp + i8
    if name == 'chain4': return [('add', row('arg8'))] + fix(3) + clamp + u8
    raise KeyError(name)


DOC = {'srdhm': 'multiplication by the fixed-point multiplier', 'rdiv': 'rounding right shift',
       'add': 'addition', 'mul': 'multiplication', 'clamp': 'clamping', 'sat': 'saturating cast',
       'trunc': 'truncating cast', 'shl': 'left shift'}


class Sweep:
    """Equality of an implementation term and a specification built step by
    step; equal intermediate values are cut out."""

    def __init__(self):
        self.nm = Norm()
        self.memo = {}

    def envs(self, vs, pres, n=40, extra=()):
        rnd = random.Random(5)
        pool = [0, 1, -1, 2, -2, 3, 127, 128, 129, 255, 256, -128, -129, 2**15, -2**15, 2**16 + 12345,
                2**30, -2**30, 2**31 - 1, -2**31, -2**31 + 1, 0x12345678, -0x6789abc]
        out = list(extra)
        tries = 0
        while len(out) < n + len(extra) and tries < 40 * n:
            tries += 1
            e = {v: rnd.choice(pool) if rnd.random() < .6 else rnd.getrandbits(v[1]) for v in vs}
            if all(peval(p, e.get) & 1 for p in pres):
                out.append(e)
        return out

    def proved(self, u, s, pre):
        if self.nm.equal(u, s):
            return ('true', 1)
        c = cmp('eq', expand(u), expand(s))
        return ('true', 1) if c == TRUE else decide(c, pre)

    def equal(self, impl, ops, value):
        """impl: term; ops: [(op, *args)]; value(arg) -> term"""
        key = (impl, tuple(ops))
        if key not in self.memo:
            self.memo[key] = self._equal(impl, ops, value)
        return self.memo[key]

    def _equal(self, impl, ops, value):
        cur = V('x', 32)
        pres = []
        impl0 = impl
        full = cur            # the specification without cuts
        wit = []
        rng = None            # bounds on a cut value, as a condition
        for n, op in enumerate(ops):
            k = op[0]

            def step(c):
                if k == 'add': return B('add', c, value(op[1]))
                if k == 'mul': return B('mul', c, value(op[1]))
                if k == 'srdhm': return mk('fn', 32, 'srdhm', c, value(op[1]))
                if k == 'rdiv': return mk('fn', 32, 'rdiv', c, C(op[1], 32)) if op[1] else c
                if k == 'shl': return B('shl', c, C(op[1], 32)) if op[1] else c
                if k == 'clamp':
                    return B('smin', B('smax', c, value(op[1])), value(op[2]))
                if k == 'sat': return s_sat(c, *op[1:])
                if k == 'trunc': return ex(c, 0, op[1])
            lpre = rng
            if k == 'clamp':
                q = cmp('sle', value(op[1]), value(op[2]))
                pres.append(q)
                lpre = q if rng is None else B('and', q, rng)
            if k == 'shl' and s_fits(full, op[1]) is not None:
                pres.append(s_fits(full, op[1]))
                lpre = s_fits(cur, op[1])
                lpre = lpre if rng is None else B('and', lpre, rng)
            rng = None
            cur, full = step(cur), step(full)
            if n == len(ops) - 1:
                break
            # cut: a subterm of the implementation equal to the current value
            vs = sorted(variables(cur) | variables(impl), key=repr)
            es = self.envs(vs, [lpre] if lpre is not None else [], 24)
            memos = [{} for _ in es]
            want = [peval(cur, e.get, mm) for e, mm in zip(es, memos)]
            cand = []
            for u in subterms(impl):
                if width(u) != width(cur) or u[0] == 'c':
                    continue
                if all(peval(u, e.get, mm) == y for e, mm, y in zip(es, memos, want)):
                    cand.append(u)
            hits = []
            for u in cand:
                r = self.proved(u, cur, lpre)
                if r[0] == 'true':
                    hits.append(u)
                elif r[0] == 'false':
                    wit.append((u, r[1]))
            if hits:
                y = V('y%d' % n, width(cur))
                hs = set(hits)
                impl = replace(impl, hs, y)
                cur = y
                if k == 'rdiv' and op[1]:
                    b = 2 ** (31 - op[1])
                    rng = B('and', cmp('sge', y, C(-b, 32)), cmp('sle', y, C(b, 32)))
        pre = None
        if lpre is not None:
            pre = lpre
        if not (variables(impl) & {V('y%d' % n, 32) for n in range(len(ops))}) and len(pres) and pre is None:
            for q in pres:
                pre = q if pre is None else B('and', pre, q)
        # refute on the uncut terms
        vs = sorted(variables(impl0) | variables(full), key=repr)
        for e in self.envs(vs, pres, 60):
            x, y = peval(impl0, e.get), peval(full, e.get)
            if x != y:
                return ('false', x, y, e)
        r = self.proved(impl, cur, pre)
        if r[0] == 'true':
            return ('true',)
        extra = []
        for u, w in ([(None, r[1])] if r[0] == 'false' else []) + wit:
            e = {v: w.get(v, 0) for v in vs}
            extra.append(e)
        for e in self.envs(vs, pres, 400, extra):
            if not all(peval(p, e.get) & 1 for p in pres):
                continue
            x, y = peval(impl0, e.get), peval(full, e.get)
            if x != y:
                return ('false', x, y, e)
        return ('unknown', r[1] if r[0] == 'unknown' else 'cut not composed')


def expand(t, memo=None):
    """write out the fixed-point primitives"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t[0] in ('v', 'c'):
        return t
    a = [expand(z, memo) if isinstance(z, tuple) and len(z) > 2 and isinstance(z[0], str) else z for z in t[2:]]
    if t[0] == 'fn' and a[0] == 'srdhm' and t[1] == 32:
        r = s_srdhm(a[1], a[2])
    elif t[0] == 'fn' and a[0] == 'rdiv' and t[1] == 32 and is_c(a[2]):
        r = s_rdiv(a[1], a[2][2])
    else:
        r = rebuild(t[0], t[1], a)
    memo[t] = r
    return r


def primitives_model(ev, i, n, a):
    """calls of the primitives decided by P17"""
    mm = re.search(r'\d(SaturatingRoundingDoublingHighMul|RoundingDivideByPOT)I', n)
    if not mm:
        return NotImplemented
    name = 'srdhm' if mm[1][0] == 'S' else 'rdiv'
    ty = parse_type(i.t)

    def l32(v):
        f = flat(v)
        return [ex(f, k, k + 32) for k in range(0, width(f), 32)]
    n32 = tbits(ty) // 32
    xs = [l32(v) for v in a if v is not None]
    if len(xs) > 2:                     # a vector passed in several pieces
        if len(xs) % 2 and len(xs[-1]) == 1:
            xs = [sum(xs[:-1], []), xs[-1]]
        else:
            h = len(xs) // 2
            xs = [sum(xs[:h], []), sum(xs[h:], [])]
    xs = [x * n32 if len(x) == 1 else x for x in xs]
    if len(xs) != 2 or any(len(x) != n32 for x in xs):
        raise Unsupported('arguments of %s' % n)
    out = []
    for x, y in zip(*xs):
        if name == 'rdiv' and is_c(y) and y[2] == 0:
            out.append(x)
        elif name == 'rdiv' and not is_c(y):
            raise Unsupported('variable exponent')
        else:
            out.append(mk('fn', 32, name, x, y))
    from lane import cat
    return unflat(cat(out), ty)


def replace(t, hs, y, memo=None):
    memo = {} if memo is None else memo
    if t in hs:
        return y
    if t[0] in ('v', 'c'):
        return t
    if t in memo:
        return memo[t]
    r = rebuild(t[0], t[1], [replace(z, hs, y, memo) if isinstance(z, tuple) and len(z) > 2 and
                             isinstance(z[0], str) else z for z in t[2:]])
    memo[t] = r
    return r


KEEP = ('gemmlowp::SaturatingRoundingDoublingHighMul<', 'gemmlowp::RoundingDivideByPOT<')
TBITS = {'u8': 8, 'i8': 8, 'i16': 16, 'i32': 32}


def pipelines(rep, tier):
    rep.rule('position', 'a block stores exactly its own elements of the destination', 100)
    rep.rule('stage', 'each stored element is the documented sequence of stages applied to its own '
                      'accumulator with the parameters of its own row and column', 500)
    rep.rule('tanh', 'each element of the tanh stage depends on its own accumulator only and is exactly '
                     'zero -/+ amplitude at and beyond 8 amplitudes from zero', 50)
    rep.rule('store8x8', 'the 8x8 row-major store writes each element to its own place', 2)
    sw = Sweep()
    build.prefetch([('pipeline.cc', cfg) for cfg in CONFIGS], scev=False, passes='unroll',
                   keep=KEEP)
    for cfg in CONFIGS:
        m = build.module('pipeline.cc', cfg, scev=False, passes='unroll', keep=KEEP)
        rep.units.add('drivers/pipeline.cc [%s]' % m.cfg)
        for name, fn in sorted(m.funcs.items()):
            mm = re.fullmatch(r'vp__s__(\w+)', name)
            if mm:
                store8(rep, cfg, fn, TBITS[mm[1]] // 8, mm[1])
                continue
            mm = re.fullmatch(r'vp__p__tanh_(\d+)_(\d+)__(\d)_(\d)__(\w+)', name)
            if mm:
                tanh_stage(rep, cfg, fn, *map(int, mm.groups()[:4]), mm[5])
                continue
            mm = re.fullmatch(r'vp__p__(\w+?)__(\d)_(\d)__(\w+)', name)
            if mm:
                one_pipeline(rep, sw, cfg, fn, mm[1], int(mm[2]), int(mm[3]), mm[4])
    return ['clang 18 front end and LLVM normalisation', 'the models of SIMD intrinsics in lib/lane.py',
            'indices do not overflow int']


def tanh_stage(rep, cfg, fn, zero, amp, R, Cc, order):
    what = 'OutputStageTanh (zero %d, amplitude %d) on a %dx%d block, %s destination' % (zero, amp, R, Cc, order)
    where = 'internal/output.h: ' + what
    rep.functions.add(what)
    try:
        ev = Eval(fn, elt=lambda b: 32, calls=primitives_model)
        ev.opaque = {'srdhm'}
        ev.run()
    except Unsupported as x:
        rep.unk('tanh', '%s [%s]' % (where, cfg), str(x))
        return
    for i in range(R):
        for j in range(Cc):
            k = lin(*dst_index(order, i, j, A(5), A(6), A(2)))
            t = ev.mem.load(Ptr('arg1', *k), 4)
            x = V(('arg0', (), i + j * R), 32)
            bad = [v for v in variables(t) if v != x]
            if bad:
                rep.bad('tanh', 'tanh %dx%d %s' % (R, Cc, order), where,
                        'element (%d, %d) depends on %s' % (i, j, show(bad[0])), cfg)
                continue
            fresh = {}
            for u in subterms(t):
                if u[0] == 'fn':
                    fresh.setdefault(u, V('u%d' % len(fresh), width(u)))
            t0, t = t, subst(t, fresh)
            for pre, want, txt in ((cmp('sle', x, C(zero - 8 * amp, 32)), zero - amp, 'low'),
                                   (cmp('sge', x, C(zero + 8 * amp, 32)), zero + amp, 'high')):
                r = decide(cmp('eq', t, C(want, 32)), pre)
                if r[0] == 'false' and peval(t0, lambda v: r[1].get(v, 0)) == want:
                    r = ('unknown', 'depends on the value of a primitive')
                if r[0] == 'true':
                    rep.ok('tanh')
                elif r[0] == 'unknown':
                    rep.unk('tanh', '%s, element (%d, %d) [%s]' % (where, i, j, cfg), str(r[1]))
                else:
                    rep.bad('tanh', 'tanh %dx%d %s' % (R, Cc, order), where,
                            'element (%d, %d) does not saturate at the %s end for input %d' % (
                                i, j, txt, r[1].get(x, 0)), cfg)


def subst(t, m, memo=None):
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t[0] in ('v', 'c'):
        return t
    if t in memo:
        return memo[t]
    r = rebuild(t[0], t[1], [subst(z, m, memo) if isinstance(z, tuple) and len(z) > 2 and
                             isinstance(z[0], str) else z for z in t[2:]])
    memo[t] = r
    return r


def store8(rep, cfg, fn, elt, ty):
    where = 'internal/output*.h: StoreFinalOutput of an 8x8 block of %s' % ty
    rep.functions.add('StoreFinalOutput<%s, 8x8>' % ty)
    try:
        ev = Eval(fn, elt=lambda b: 8 * elt).run()
    except Unsupported as x:
        rep.unk('store8x8', '%s [%s]' % (where, cfg), str(x))
        return
    want = {lin(*dst_index('RowMajor', i, j, A(3), A(4), A(2)), elt=elt): (i, j)
            for i in range(8) for j in range(8)}
    got = written(ev, 'arg1', elt)
    extra = [k for k in got if k not in want]
    miss = [v for k, v in want.items() if k not in got]
    if any(not plain(k[0]) for k in extra):
        rep.unk('store8x8', where, 'address %s' % (Ptr('dst', *extra[0]),))
        return
    if extra or miss:
        rep.bad('store8x8', '8x8 %s' % ty, where, 'elements %s not stored, stray stores at %s' % (
            miss[:2], [Ptr('dst', *k) for k in extra[:2]]), cfg)
        return
    for k, (i, j) in want.items():
        t = ev.mem.load(Ptr('arg1', *k), elt)
        s = V(('arg0', (), i + 8 * j), 8 * elt)
        rep.check('store8x8', t == s, '8x8 %s' % ty, where,
                  'element (%d, %d) receives %s' % (i, j, show(t)), cfg)


def one_pipeline(rep, sw, cfg, fn, pname, R, Cc, order):
    what = 'pipeline %s on a %dx%d block, %s destination' % (pname, R, Cc, order)
    where = 'internal/output*.h: ' + what
    rep.functions.add(what)
    ops = stages(pname)
    bits = 32
    for o in ops:
        if o[0] == 'sat': bits = o[3]
        if o[0] == 'trunc': bits = o[1]
    elt = bits // 8
    pc = pname in ('fixeC', 'fixeR')

    def const(v):
        if pc and isinstance(v[2], tuple) and v[2][0] == 'arg9':
            return C(EXPONENTS[v[2][2] % len(EXPONENTS)], 32)
        return v
    try:
        ev = Eval(fn, elt=lambda b: bits if b == 'arg1' else 32, calls=primitives_model)
        ev.opaque = {'srdhm'}
        ev.mem0.const = const
        ev.run()
    except Unsupported as x:
        rep.unk('stage', '%s [%s]' % (where, cfg), str(x))
        return
    ds, gr, gc, dr, dc = A(2), A(3), A(4), A(5), A(6)
    want = {lin(*dst_index(order, i, j, dr, dc, ds), elt=elt): (i, j) for i in range(R) for j in range(Cc)}
    got = written(ev, 'arg1', elt)
    extra = [k for k in got if k not in want]
    miss = [v for k, v in want.items() if k not in got]
    key = '%s %dx%d %s' % (pname, R, Cc, order)
    if any(not plain(k[0]) for k in extra):
        rep.unk('position', where, 'address %s' % (Ptr('dst', *extra[0]),))
        return
    if extra or miss:
        rep.bad('position', key, where, 'elements %s not stored, stray stores at %s' % (
            miss[:2], [Ptr('dst', *k) for k in extra[:2]]), cfg)
        return
    rep.ok('position')
    for kk, (i, j) in want.items():
        t = ev.mem.load(Ptr('arg1', *kk), elt)

        def pos(p):
            if p[0] == 'scalar':
                return V((p[1], (), p[2]), 32)
            return var_at(p[1], [(1, gr), (i,)] if p[0] == 'row' else [(1, gc), (j,)])
        o2 = []
        names = {V(('arg0', (), i + j * R), 32): V('x', 32)}
        for o in ops:
            if o[0] in ('shl', 'rdiv') and isinstance(o[1], str):
                e = EXPONENTS[(i if o[1] == 'row' else j) % len(EXPONENTS)]
                o = (o[0], max(0, e) if o[0] == 'shl' else max(0, -e))
            o = tuple(o)
            for p in o[1:]:
                if isinstance(p, tuple):
                    names.setdefault(pos(p), V('_'.join(map(str, p)), 32))
            o2.append(o)
        memo = {}

        def ren(v):
            return names.get(v) or V('other ' + show(v), width(v))
        t = rename(t, ren)
        r = sw.equal(t, tuple(o2), lambda p: V('_'.join(map(str, p)), 32))
        if r[0] == 'true':
            rep.ok('stage')
        elif r[0] == 'unknown':
            rep.unk('stage', '%s, element (%d, %d) [%s]' % (where, i, j, cfg), str(r[1]))
        else:
            rep.bad('stage', key, where, 'element (%d, %d) is %d, expected %d, for %s' % (
                i, j, r[1], r[2], ', '.join('%s=%d' % (v[2], sgn(x, 32)) for v, x in sorted(r[3].items(), key=repr))),
                cfg)

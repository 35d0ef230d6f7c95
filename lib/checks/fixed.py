"""P17: the fixed-point primitives compute their documented scalar function,
lane by lane, for every input and in every SIMD backend."""
import re

import build
from lane import (Eval, Ptr, Unsupported, V, C, B, cmp, sel, sext, zext, ex, trunc, variables, rename,
                  subterms, NOT, cat, width, show, TRUE)
from region import decide

WIDE = {8: 24, 16: 40, 32: 72}


def half(e):
    return (1 << e) >> 1


def spec_rdiv(a, e, w):
    """nearest integer to a / 2^e, ties away from zero"""
    W = WIDE[w]
    A = sext(a, W)
    k = C(e, W)
    if e == 0:
        return A
    up = B('ashr', B('add', A, C(half(e), W)), k)
    dn = B('sub', C(0, W), B('ashr', B('add', B('sub', C(0, W), A), C(half(e), W)), k))
    return sel(cmp('slt', a, C(0, w)), dn, up)


def sat(t, w):
    W = width(t)
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return sel(cmp('slt', t, C(lo, W)), C(lo, W), sel(cmp('sgt', t, C(hi, W)), C(hi, W), t))


def spec_srdhm(a, b, w):
    W = WIDE[w]
    mn = C(-(1 << (w - 1)), w)
    p = B('mul', sext(a, W), sext(b, W))
    return sel(B('and', cmp('eq', a, mn), cmp('eq', b, mn)), C((1 << (w - 1)) - 1, W),
               B('ashr', B('add', p, C(1 << (w - 2), W)), C(w - 1, W)))


def mask(c, w):
    return sext(c, w)


CMPS = {'MaskIfEqual': 'eq', 'MaskIfNotEqual': 'ne', 'MaskIfGreaterThan': 'sgt',
        'MaskIfGreaterThanOrEqual': 'sge', 'MaskIfLessThan': 'slt', 'MaskIfLessThanOrEqual': 'sle'}


def spec(op, e, a, b, c, r, w):
    """(condition, precondition) on inputs a b c and result r of one lane"""
    W = WIDE[w]
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1

    def wide_eq(s):
        return cmp('eq', s, sext(r, W))

    def fits(s):
        return B('and', cmp('sge', s, C(lo, W)), cmp('sle', s, C(hi, W)))
    if op in ('Add', 'Sub'):
        s = B(op.lower(), sext(a, W), sext(b, W))
        return wide_eq(s), fits(s)
    if op == 'Neg':
        return wide_eq(B('sub', C(0, W), sext(a, W))), cmp('ne', a, C(lo, w))
    if op == 'Mul':
        return cmp('eq', B('mul', a, b), r), None
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        return cmp('eq', B(op[3:].lower(), a, b), r), None
    if op == 'BitNot':
        return cmp('eq', B('xor', a, C(-1, w)), r), None
    if op in CMPS:
        return cmp('eq', mask(cmp(CMPS[op], a, b), w), r), None
    if op == 'MaskIfZero':
        return cmp('eq', mask(cmp('eq', a, C(0, w)), w), r), None
    if op == 'MaskIfNonZero':
        return cmp('eq', mask(cmp('ne', a, C(0, w)), w), r), None
    if op == 'SelectUsingMask':
        return (cmp('eq', sel(cmp('eq', a, C(0, w)), c, b), r),
                B('or', cmp('eq', a, C(0, w)), cmp('eq', a, C(-1, w))))
    if op == 'RoundingHalfSum':
        s = B('add', sext(a, W), sext(b, W))
        d = B('sub', B('add', sext(r, W), sext(r, W)), s)
        # ties of negative sums may go either way (scalar and VRHADD differ)
        least = sel(cmp('slt', s, C(0, W)), C(-1, W), C(0, W))
        return B('and', cmp('sge', d, least), cmp('sle', d, C(1, W))), None
    if op in ('SaturatingRoundingDoublingHighMul', 'FMul'):
        return wide_eq(spec_srdhm(a, b, w)), None
    if op == 'SaturatingAdd' or op == 'AddSaturatingIf16Bit' and w == 16:
        return wide_eq(sat(B('add', sext(a, W), sext(b, W)), w)), None
    if op == 'AddSaturatingIf16Bit':
        s = B('add', sext(a, W), sext(b, W))
        return wide_eq(s), fits(s)
    if op in ('RoundingDivideByPOT', 'RoundingDivideByPOTV'):
        return wide_eq(spec_rdiv(a, e, w)), None
    if op == 'ShiftRight':
        return wide_eq(B('ashr', sext(a, W), C(e, W))), None
    if op == 'ShiftLeft':
        s = B('shl', sext(a, W), C(e, W))
        return wide_eq(s), fits(s)
    if op in ('MulPOT', 'Rescale'):
        if e < 0:
            return wide_eq(spec_rdiv(a, -e, w)), None
        return wide_eq(sat(B('shl', sext(a, W), C(e, W)), w)), None
    if op in ('ExactMulByPot', 'Dup'):
        return cmp('eq', a, r), None
    K = {'One': 1 << (w - 4), 'One0': hi, 'Zero': 0, 'PotM2': 1 << (w - 6), 'Pot1': 1 << (w - 3)}
    if op in K:
        return cmp('eq', C(K[op], w), r), None
    raise KeyError(op)


TEXT = {
    'RoundingDivideByPOT': 'x/2^e rounded to nearest, ties away from zero',
    'RoundingDivideByPOTV': 'x/2^e rounded to nearest, ties away from zero',
    'SaturatingRoundingDoublingHighMul': 'floor((2ab + 2^(w-1)) / 2^w), saturated when a = b = min',
    'FMul': 'floor((2ab + 2^(w-1)) / 2^w), saturated when a = b = min',
    'RoundingHalfSum': '(a+b)/2 rounded to nearest',
    'MulPOT': 'x*2^e saturated, or x/2^-e rounded to nearest',
    'Rescale': 'x*2^e saturated, or x/2^-e rounded to nearest',
}

CONFIGS = ['sse4', 'avx2', 'aarch64', 'armhf', 'mips64+msa', 'wasm32+simd']
SRC = {'v': {'sse4': 'fixedpoint_sse.h', 'avx2': 'fixedpoint_sse.h', 'aarch64': 'fixedpoint_neon.h',
             'armhf': 'fixedpoint_neon.h', 'mips64+msa': 'fixedpoint_msa.h',
             'wasm32+simd': 'fixedpoint_wasmsimd.h'},
       'w': {'avx2': 'fixedpoint_avx.h'}}


def site_of(cfg, n):
    return 'fixedpoint/' + SRC.get(n[0], {}).get(cfg, 'fixedpoint.h')


def gconst(m, name):
    g = m.globals.get(name)
    if not g or 'init' not in g:
        raise build.AnalysisBroken('constant %s is gone' % name)
    return g['init'][1]


def primitives(rep, tier):
    rep.rule('lane', 'every result lane depends on the same lane of the inputs only', 100)
    rep.rule('value', 'every result lane equals the documented function for all inputs', 100)
    rep.rule('reduce', 'All, Any, == and != reduce over every lane', 8)
    rep.rule('lanes', 'kLanes * sizeof(ScalarRawType) == sizeof(RawType)', 6)
    memo = {}
    for cfg in CONFIGS:
        m = build.module('fixedpoint.cc', cfg, scev=False, passes='unroll')
        rep.units.add('drivers/fixedpoint.cc [%s]' % m.cfg)
        for name, fn in sorted(m.funcs.items()):
            mm = re.fullmatch(r'vp__(\w+?)__([svw]\d+)(?:__(\w+))?', name)
            if not mm:
                continue
            op, n, e = mm[1], mm[2], mm[3]
            e = None if e is None else int(e[1:]) if e[0] == 'p' else -int(e[1:]) if e[0] == 'm' else int(e)
            w = int(n[1:])
            rep.functions.add('%s<%s%s>' % (op, n, '' if e is None else ', %d' % e))
            bits = w
            size = gconst(m, 'vp_size_' + n) * 8 if n != 's8' else 8
            nl = size // bits
            key = '%s %s' % (op, n)
            where = '%s: %s on %s' % (site_of(cfg, n), op, n)
            try:
                check_one(rep, m, fn, op, e, w, nl, n, key, where, memo)
            except Unsupported as x:
                rep.unk('value', where, str(x))
        for n in sorted({k[8:] for k in m.globals if k.startswith('vp_size_')}):
            k, b, s = (gconst(m, 'vp_%s_%s' % (x, n)) for x in ('lanes', 'bits', 'size'))
            rep.check('lanes', k * b == 8 * s, 'FixedPointRawTypeTraits %s' % n,
                      '%s: FixedPointRawTypeTraits of %s' % (site_of(cfg, n), n),
                      'kLanes is %d but the type holds %d lanes of %d bits' % (k, 8 * s // b, b), m.cfg)
    return ['clang 18 front end and LLVM normalisation', 'the models of SIMD intrinsics in lib/lane.py']


def check_one(rep, m, fn, op, e, w, nl, n, key, where, memo):
    nargs = len(fn.args)
    reduce_ = op in ('All', 'Any', 'Equal', 'NotEqual')

    def elt(base):
        if base == 'arg%d' % (nargs - 1) and reduce_:
            return 8
        return w
    ev = Eval(fn, elt=elt).run()
    out = Ptr('arg%d' % (nargs - 1))
    names = ['a', 'b', 'c']
    if reduce_:
        t = ev.mem.load(out, 1)
        A = [[V(('arg%d' % j, (), k), w) for k in range(nl)] for j in range(nargs - 1)]
        pre = None
        if op in ('All', 'Any'):
            if n[0] == 's':
                conds = [cmp('ne', A[0][0], C(0, w))]
            else:
                conds = [cmp('eq', x, C(-1, w)) for x in A[0]]
            # masks: a lane is 0 or all ones; abstract each lane by one bit
            bits = [V('m%d' % k, 1) for k in range(nl)]
            t = rename(t, lambda v: mask(bits[A[0].index(v)], w) if v in A[0] and n[0] != 's' else v)
            if n[0] != 's':
                conds = bits
        else:
            conds = [cmp('eq', x, y) for x, y in zip(*A)]
            # each lane is equal or not: both sides only use equality of lanes
            bits = [V('m%d' % k, 1) for k in range(nl)]
            t = fold_eq(t, A, bits)
            conds = bits
        s = conds[0]
        for c in conds[1:]:
            s = B('or' if op == 'Any' else 'and', s, c)
        if op == 'NotEqual':
            s = NOT(s)
        t = zext(cmp('ne', t, C(0, 8)), 8)
        r = bool_equal(s, cmp('ne', t, C(0, 8)))
        if r is True:
            rep.ok('reduce')
        elif r is None:
            rep.unk('reduce', where, 'not a function of the lane masks')
        else:
            rep.bad('reduce', key, where, '%s is wrong for lanes %s' % (op, r), m.cfg)
        return
    lanes = [ex(ev.mem.load(Ptr('arg%d' % (nargs - 1), (), k * w // 8), w // 8), 0, w) for k in range(nl)]
    # stores outside the result lanes
    for k, t in enumerate(lanes):
        vs = variables(t)
        own = set()
        foreign = []
        for v in vs:
            nm = v[2]
            if isinstance(nm, tuple) and len(nm) == 3 and nm[1] == () and \
                    (nm[2] == k or op == 'Dup' and nm[2] == 0) and nm[0] != 'arg%d' % (nargs - 1):
                own.add(v)
            else:
                foreign.append(v)
        if foreign:
            rep.bad('lane', key, where, 'lane %d depends on %s' % (k, show(foreign[0])), m.cfg)
            continue
        rep.ok('lane')
        t = rename(t, lambda v: V(names[int(v[2][0][3:])], width(v)))
        a, b, c = (V(x, w) for x in names)
        mk = (op, e, w, t)
        if mk not in memo:
            cond, pre = spec(op, e, a, b, c, t, w)
            memo[mk] = ('true', 1) if cond == TRUE else decide(cond, pre)
        r = memo[mk]
        if r[0] == 'true':
            rep.ok('value')
            rep.stat('regions', r[1])
        elif r[0] == 'unknown':
            rep.unk('value', '%s%s' % (where, '' if e is None else ', exponent %d' % e), r[1])
        else:
            pt = ', '.join('%s=%d' % (v[2], x) for v, x in sorted(r[1].items()))
            rep.bad('value', key, where, '%s%s is not %s at %s (lane %d)' % (
                op, '' if e is None else '<%d>' % e, TEXT.get(op, 'the documented function'), pt, k), m.cfg)


def fold_eq(t, A, bits):
    """replace equality tests of matching lanes by one bit per lane"""
    pair = {}
    for k, (x, y) in enumerate(zip(*A)):
        for p, q in ((x, y), (y, x)):
            pair[cmp('eq', p, q)] = bits[k]
            pair[cmp('ne', p, q)] = NOT(bits[k])
    memo = {}

    def go(u):
        if u in pair:
            return pair[u]
        if u in memo:
            return memo[u]
        if u[0] in ('v', 'c'):
            return u
        from lane import rebuild
        r = rebuild(u[0], u[1], [go(x) if isinstance(x, tuple) and len(x) > 2 and isinstance(x[0], str) else x
                                 for x in u[2:]])
        memo[u] = r
        return r
    return go(t)


def bool_equal(s, t):
    """equality of two propositional terms over 1-bit variables, by BDD-like
    case analysis"""
    memo = {}

    def simp(u, v, val):
        return rename(u, lambda x: C(val, 1) if x == v else x)

    def go(a, b, path):
        if a == b:
            return True
        if (a, b) in memo:
            return memo[(a, b)]
        vs = sorted(variables(a) | variables(b), key=repr)
        if not vs:
            return '{%s}' % ', '.join('%s=%d' % (v[2], x) for v, x in path)
        if any(width(v) != 1 for v in vs):
            return None
        v = vs[0]
        for val in (0, 1):
            r = go(simp(a, v, val), simp(b, v, val), path + [(v, val)])
            if r is not True:
                return r
        memo[(a, b)] = True
        return True
    return go(s, t, [])

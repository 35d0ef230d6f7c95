"""P13: the public entry points compute the documented product whatever the
shape, orders, offsets and pipeline: transposed dispatch included."""
import random
import re

import build
from lane import Ptr, Unsupported, V, C, B, mk, show, width, sext, zext, is_c, variables, rename, rebuild
from poly import peval
from walk import Walk, Failed
from checks.gemm import Gemm, DotNorm, add, KEY, LIST, linear_ok
from checks.unpack import Sweep, primitives_model, replace, subterms, EXPONENTS, KEEP as PRIM

KEEP = ('HowManyThreads<', 'gemmlowp::PackLhs<', 'gemmlowp::PackRhs<', 'gemmlowp::UnpackResult<',
        'gemmlowp::Compute<') + PRIM
CONFIGS = ['x86', 'sse4', 'avx2', 'aarch64', 'armhf', 'mips64+msa']
NAMES = ['lhs', 'ls', 'rhs', 'rs', 'dst', 'ds', 'lo', 'ro', 'p', 'bc', 'br', 'q0', 'q1']
OUT = {'p0': 32, 'p1': 32, 'p1r': 32, 'p2': 32, 'p2s': 8, 'p3': 8, 'p4': 8, 'p5': 16, 'p6': 8, 'pe': 32, 'pec': 32,
       'per': 32, 'p2b': 32, 'p3b': 32, 'p4b': 32, 'p5b': 8}


def ops(pipe):
    def p(k): return ('scalar', 'p', k)
    bc, br = ('add', ('row', 'bc')), ('add', ('col', 'br'))
    bq, bs = ('add', ('row', 'q0')), ('add', ('col', 'q1'))

    def pc(kind, e): return [('add', (kind, 'q0')), ('mul', (kind, 'q1')), ('rdiv', e)]
    clamp = ('clamp', p(2), p(3))
    u8, i16 = ('sat', 0, 255, 8), ('sat', -32768, 32767, 16)
    scale = [('add', p(0)), ('mul', p(1))]
    if pipe.isdigit():
        return scale + [('rdiv', int(pipe)), u8]
    return {
        'p0': [], 'p1': [bc], 'p1r': [br], 'p2': [bc, br],
        'p2s': pc('row', 0) + [u8],
        'p3': [br] + pc('row', 5) + [u8],
        'p4': pc('col', 3) + [bc, clamp, u8],
        'p5': [br, ('srdhm', p(4)), ('rdiv', 4), ('add', p(5)), bc, clamp, i16],
        'p6': [bc, br] + scale + [('rdiv', 2), bq, clamp, u8],
        'p2b': [bc, bq], 'p3b': [bc, br, bq], 'p4b': [bc, bq, br, bs], 'p5b': [bc, br, bs, bq, u8],
        'pe': [('shl', 0), ('srdhm', p(4)), ('rdiv', 3), ('add', p(5)), br],
        'pec': [br, ('shl', 'row'), ('srdhm', ('row', 'q0')), ('rdiv', 'row'), ('add', p(5))],
        'per': [bc, ('shl', 'col'), ('srdhm', ('col', 'q0')), ('rdiv', 'col'), ('add', p(5))],
    }[pipe]


class Entry(Gemm):
    """walks a call of a public entry point"""
    consts = ('lhs', 'rhs', 'lo', 'ro', 'p', 'bc', 'br', 'q0', 'q1', 'null', 'undef')

    def setup(self, fn, fmt, bits):
        f = fmt
        order = {f[10]: 'D', f[11]: 'W'}
        self.lf = (f[0], f[1], order.get(f[2], 'G'), f[3])
        self.rf = (f[5], f[6], order.get(f[7], 'G'), f[8])
        self.kind = 'S' if f[4] else 'U'
        self.reg = f[12]
        self.forced = 0
        self.heap = {}
        self.nheap = 0
        self.kcalls = 0
        self.tasks = []
        self.touched = set()
        self.locked = None
        self.psize = 8 if '64' in fn.mod.cfg or fn.mod.cfg in ('x86', 'sse4', 'avx2') else 4
        self.bits = bits

    def __init__(self, fn, fmt, bits, pec, rows, cols, depth):
        self.setup(fn, fmt, bits)
        args = [Ptr(n) if n not in ('ls', 'rs', 'ds') else V((n,), 32) for n in NAMES]
        args += [C(x, 32) for x in (rows, cols, depth)]
        Walk.__init__(self, fn, args=args, calls=None,
                      elt=lambda b: 8 if b in ('lhs', 'rhs') or b[:4] in ('heap', 'allo') else bits if b == 'dst' else 32)
        self.call_model = self.model
        self.opaque = {'srdhm'}
        if pec:
            self.mem0.const = lambda v: C(EXPONENTS[v[2][2] % len(EXPONENTS)], 32) \
                if isinstance(v[2], tuple) and v[2][0] == 'q1' else v

    def store(self, p, t, i):
        if p.base in self.consts:
            raise Failed('writes to %r' % p)
        super().store(p, t, i)

    def model(self, ev, i, n, a):
        r = primitives_model(ev, i, n, a)
        if r is not NotImplemented:
            return r
        if re.match(r'pthread_(mutex|cond)_(init|destroy)$', n):
            return C(0, 32)
        return super().model(ev, i, n, a)

    def call(self, i, ty):
        if i.callee_name() is None and not i.is_asm():
            f = self.ref(i.callee)
            m = re.fullmatch(r'\*\(_ZTV(\S+?)\+(\d+)\)', f.base)
            if not m or int(m[2]) != 3 * self.psize or 'ernel' not in m[1] and 'GEMM' not in m[1]:
                raise Unsupported('indirect call of %r' % f)
            self.kernel(*[self.ref(x) for x in i.ops[1:]])
            return None
        return Walk.call(self, i, ty)


def shapes(tier, name):
    rnd = random.Random(name)
    r = [(1, 1, 1), (3, 7, 2), (7, 3, 2), (5, 5, 3), (2, 9, 1), (9, 2, 1), (4, 17, 2), (1, 6, 19), (6, 1, 17),
         (0, 3, 2), (3, 0, 2), (3, 2, 0), (8, 12, 1), (13, 8, 1), (1, 13, 5), (12, 25, 1)]
    for _ in range(40 if tier != 'quick' else 4):
        r.append((rnd.randrange(1, 15), rnd.randrange(1, 15), rnd.randrange(1, 4)))
    return r


def entry(rep, tier):
    rep.rule('value', 'every result element is the documented pipeline applied to the exact product of the offset '
                      'operands, with the offsets and parameters of its own row and column', 1000)
    rep.rule('access', 'only operand elements are read, only result elements are written; a product with an empty '
                       'dimension touches nothing', 50)
    build.prefetch([('entry.cc', c) for c in CONFIGS], scev=False, keep=KEEP)
    work = []
    for cfg in CONFIGS:
        m = build.module('entry.cc', cfg, scev=False, keep=KEEP)
        rep.units.add('drivers/entry.cc [%s]' % m.cfg)
        for name, fn in sorted(m.funcs.items()):
            mm = re.fullmatch(r'vp__(wp|pc|pd|gm)__(\w+?)__(\w+?)__([RC]{3})', name)
            if not mm:
                continue
            g = m.globals['vp_format_' + mm[2]]
            f = [x[1] for x in g['init'][1]]
            for sh in shapes(tier, cfg + name):
                work.append((m, fn, mm.groups(), f, sh))
    work.sort(key=lambda x: -x[-1][0] * x[-1][1] * x[-1][2])
    rep.parallel(work, one)
    return ['clang 18 front end and LLVM normalisation', 'the models of SIMD intrinsics in lib/lane.py',
            'kernels compute the exact product of the packed blocks they are given (P24)',
            'the fixed-point primitives (P17)', 'distinct allocations do not overlap']


TEXT = {'wp': 'GemmWithOutputPipeline', 'pc': 'GemmWithOutputPipelinePC',
        'pd': 'GemmWithOutputPipelinePC (one scalar offset)', 'gm': 'Gemm'}


def at(order, stride, r, c, elt=1):
    a, b = (r, c) if order == 'R' else (c, r)
    return ((stride, a * elt),) if a else (), b * elt


def undot(t, memo):
    """kernel contributions written out"""
    if t in memo:
        return memo[t]
    if t[0] in ('v', 'c'):
        return t
    if t[0] == 'fn' and t[2] == 'dot':
        r = C(0, 32)
        for a, b in LIST[t[3]]:
            r = B('add', r, B('mul', undot(a, memo), undot(b, memo)))
    else:
        r = rebuild(t[0], t[1], [undot(z, memo) if isinstance(z, tuple) and len(z) > 2 and isinstance(z[0], str)
                                 else z for z in t[2:]])
    memo[t] = r
    return r


SW = Sweep()


def spec(x, seq, value):
    """the pipeline as a term"""
    from checks.unpack import s_sat
    from lane import ex
    for op in seq:
        k = op[0]
        if k in ('add', 'mul'): x = B(k, x, value(op[1]))
        elif k == 'srdhm': x = mk('fn', 32, 'srdhm', x, value(op[1]))
        elif k == 'rdiv': x = mk('fn', 32, 'rdiv', x, C(op[1], 32)) if op[1] else x
        elif k == 'shl': x = B('shl', x, C(op[1], 32)) if op[1] else x
        elif k == 'clamp': x = B('smin', B('smax', x, value(op[1])), value(op[2]))
        elif k == 'sat': x = s_sat(x, *op[1:])
        elif k == 'trunc': x = ex(x, 0, op[1])
    return x


def one(rep, item):
    m, fn, (kind, bdp, pipe, orders), f, (rows, cols, depth) = item
    lo, ro, do = orders
    what = '%s, bit depth %s, pipeline %s, lhs/rhs/result %s, %dx%dx%d' % (
        TEXT[kind], bdp, pipe, '/'.join({'R': 'RowMajor', 'C': 'ColMajor'}[x] for x in orders), rows, depth, cols)
    key = '%s %s %s %s%s' % (kind, bdp, pipe, orders, ' rows<cols' if rows < cols else '')
    where = 'public/gemmlowp.h: ' + what
    rep.functions.add('%s %s %s %s' % (TEXT[kind], bdp, pipe, orders))
    bits = 8 if kind == 'gm' else OUT[pipe]
    ev = Entry(fn, f, bits, pipe in ('pec', 'per'), rows, cols, depth)
    try:
        ev.run()
    except Failed as x:
        rep.bad('access', key, where, str(x), m.cfg)
        return
    except Unsupported as x:
        rep.unk('value', '%s [%s]' % (where, m.cfg), str(x))
        return
    seq = ops(pipe)
    final(rep, m, ev, key, where, rows, cols, depth, lo, ro, do, bits, seq,
          dict(vl=kind in ('pc', 'pd'), vr=kind == 'pc', ext=sext if bdp == 's8' else zext))


def final(rep, m, ev, key, where, rows, cols, depth, lo, ro, do, bits, seq, opt):
    ls, rs, ds = (V((n,), 32) for n in ('ls', 'rs', 'ds'))
    elt = bits // 8
    vacuous = not (rows and cols and depth)
    ok = True
    L = {('lhs',) + at(lo, ls, r, d) for r in range(rows) for d in range(depth)}
    Rr = {('rhs',) + at(ro, rs, d, c) for d in range(depth) for c in range(cols)}
    stray = ev.touched - L - Rr
    if stray:
        rep.bad('access', key, where, 'reads %s%s%+d, outside the operand' % (
            min(stray)[0], ''.join('+%d*stride' % c for _, c in min(stray)[1]), min(stray)[2]), m.cfg)
        ok = False
    D = {}
    if not vacuous:
        for r in range(rows):
            for c in range(cols):
                D[at(do, ds, r, c, elt)] = (r, c)
    for (b, sym), ws in ev.mem.w.items():
        if b == 'dst':
            for o in ws:
                if (sym, o - o % elt) not in D:
                    rep.bad('access', key, where, 'writes outside the result: byte %d%s' % (
                        o, ''.join('+%d*stride' % c for _, c in sym)), m.cfg)
                    ok = False
                    break
        elif not b.startswith(('heap', 'alloca')):
            rep.bad('access', key, where, 'writes to %s' % b, m.cfg)
            ok = False
    if ev.heap:
        rep.bad('access', key, where, '%d buffers are never released' % len(ev.heap), m.cfg)
        ok = False
    if ok:
        rep.ok('access')
    nm = DotNorm()

    def vec(n, k):
        return V((n, (), k), 32)

    def elem(n, order, stride, r, c):
        return opt['ext'](V((n,) + at(order, stride, r, c), 8), 32)
    sl = [[elem('lhs', lo, ls, r, d) for d in range(depth)] for r in range(rows)]
    sr = [[elem('rhs', ro, rs, d, c) for d in range(depth)] for c in range(cols)]
    nbad = 0
    off = opt.get('off') or (lambda r, c: (vec('lo', r if opt['vl'] else 0), vec('ro', c if opt['vr'] else 0)))
    for (sym, o), (r, c) in D.items():
        t = ev.mem.load(Ptr('dst', sym, o), elt)
        a, b = off(r, c)
        e, x = {}, C(0, 32)
        for u, v in zip(sl[r], sr[c]):
            for q in ((u, v), (u, b), (a, v), (a, b)):
                q = [z for z in q if z is not None]
                add(e, tuple(sorted(q, key=KEY)), 1)
            x = B('add', x, B('mul', B('add', u, a), B('add', v, b)))

        def pos(p):
            if p[0] == 'scalar':
                return opt['scalar'](p) if 'scalar' in opt else vec(p[1], p[2])
            return vec(p[1], r if p[0] == 'row' else c)
        s2 = []
        for q in seq:
            if q[0] in ('shl', 'rdiv') and isinstance(q[1], str):
                ex_ = EXPONENTS[(r if q[1] == 'row' else c) % len(EXPONENTS)]
                q = (q[0], max(0, ex_) if q[0] == 'shl' else max(0, -ex_))
            s2.append(q)
        res = value(nm, t, e, x, s2, pos)
        if res[0] == 'true':
            rep.ok('value')
            continue
        nbad += 1
        msg = 'element (%d, %d) ' % (r, c)
        if t == V(('dst', sym, o // elt), bits):
            rep.bad('value', key, where, msg + 'is never written', m.cfg)
        elif res[0] == 'false':
            rep.bad('value', key, where, msg + res[1], m.cfg)
        else:
            rep.unk('value', '%s [%s]' % (where, m.cfg), msg + res[1])
        if nbad > 3:
            break


def value(nm, t, e, x, seq, pos):
    """t = pipeline seq applied to the value of polynomial e (as a term: x)?"""
    if all(o[0] == 'add' for o in seq):
        # polynomial all the way
        e = dict(e)
        for o in seq:
            add(e, (pos(o[1]),), 1)
        if width(t) == 32:
            p = nm.poly(t)
            if p == e:
                return ('true',)
            if linear_ok(p, e):
                miss = [k for k in e if p.get(k) != e[k]]
                if miss:
                    return ('false', 'lacks or miscounts the term %s' % '*'.join(show(z) for z in miss[0]))
                extra = [k for k in p if k not in e]
                return ('false', 'has the extra term %s' % '*'.join(show(z)[:80] for z in extra[0]))
    else:
        hits = {u for u in subterms(t) if width(u) == 32 and u[0] in ('add', 'fn', 'mul', 'sub') and nm.poly(u) == e}
        if hits:
            X = V('x', 32)
            u = replace(t, hits, X)
            names = {X: X}
            for o in seq:
                for q in o[1:]:
                    if isinstance(q, tuple):
                        names.setdefault(pos(q), V('_'.join(map(str, q)), 32))
            u = rename(u, lambda v: names.get(v) or V('other ' + show(v), width(v)))
            r = SW.equal(u, tuple(tuple(o) for o in seq), lambda q: V('_'.join(map(str, q)), 32))
            if r[0] == 'true':
                return r
            why = str(r[1])
        else:
            why = 'accumulator not found'
    # refute on sample values
    s = spec(x, seq, pos)
    t = undot(t, {})
    vs = sorted(variables(t) | variables(s), key=repr)
    rnd = random.Random(7)
    mins = [(o[1], o[2]) for o in seq if o[0] == 'clamp']
    for k in range(60):
        env = {v: rnd.randrange(256) if v[1] == 8 else rnd.choice((rnd.randrange(-40, 40), rnd.randrange(-2000, 2000),
                                                                  rnd.getrandbits(30))) for v in vs}
        for a, b in mins:
            env[pos(a)], env[pos(b)] = (-300 if k % 2 else 3), (200 if k % 3 else 70000)
        try:
            g, w = peval(t, env.get), peval(s, env.get)
        except ValueError:
            return ('unknown', 'value not closed')
        if g != w:
            return ('false', 'is %d instead of %d for some contents' % (g, w))
    return ('unknown', why if 'why' in locals() else 'not equal in normal form')

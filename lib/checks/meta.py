"""P25: the meta library's matrix multiplications compute the documented
product."""
import random
import re
import sys

import asm
import asmeval
import build
from lane import Ptr, Unsupported, V, C, B, show, width, zext, is_c, cmp, sgn, variables, _key as KEY
from poly import Norm, peval
from region import decide
from walk import Walk, Failed
from checks.eightbit import float_value
from checks.gemm import add, linear_ok
from checks.entry import spec
from checks.unpack import replace, subterms

sys.setrecursionlimit(100000)
CONFIGS = ['aarch64', 'armhf']
FIELDS = ['m', 'n', 'k', 'ls', 'rs', 'lm', 'la', 'rm', 'ra', 'ds', 'mult', 'round', 'shift', 'scale']


class Meta(Walk):
    limit = 20000000
    asm_cache = {}

    def __init__(self, fn, args, vals, sizes):
        """vals: the constants among the fields of the argument structure;
        sizes: base -> size of that buffer, or a predicate"""
        self.heap = {}
        self.nheap = 0
        self.sizes = sizes
        self.dead_allocas = set()
        self.live = set()
        self.owner = {}
        self.touched = set()
        self.tasks = 0
        super().__init__(fn, args=args, elt=self.elt, calls=None)
        self.call_model = self.model
        for g in fn.mod.globals:
            if g.startswith('_ZGV'):
                self.mem0.store(Ptr(g), C(0, 64))
        for k, f in enumerate(FIELDS):
            self.mem0.store(Ptr('A', (), 4 * k), C(vals[f], 32) if f in vals else V((f,), 32))

    def elt(self, b):
        return 32 if b == 'dst' and self.out != 'q8' else 8

    out = 'i3'

    # -- memory ------------------------------------------------------------
    def bound(self, p, n, what):
        b = p.base
        if b.startswith('heap'):
            size = self.heap.get(b)
            if size is None:
                raise Failed('%s a released object' % what)
            if p.sym or p.off < 0 or p.off + n > size:
                raise Failed('%s byte %d of an object of %d bytes' % (what, p.off, size))
        elif b == 'scratch':
            if p.sym or p.off < 0 or p.off + n > self.sizes[b]:
                raise Failed('%s byte %r of a scratch buffer of %d bytes' % (what, p, self.sizes[b]))
        elif b.startswith('alloca'):
            if b in self.dead_allocas or '.' in b and int(b[6:].split('.')[0]) not in self.live:
                raise Failed('%s a variable of %s whose lifetime is over' % (what, self.owner.get(b, 'a function')))
        elif b in ('lhs', 'rhs'):
            for k in range(n):
                if (p.sym, p.off + k) not in self.sizes[b]:
                    raise Failed('%s %r, outside the operand' % (what, p.add((), k)))
        elif b == 'dst':
            w = 1 if self.out == 'q8' else 4
            for k in range(0, n):
                o = p.off + k
                if (p.sym, o - o % w) not in self.sizes[b]:
                    raise Failed('%s %r, outside the result' % (what, p.add((), k)))

    def load(self, p, n, bits):
        self.bound(p, n, 'reads')
        self.note(p, n, 0)
        return super().load(p, n, bits)

    def note(self, p, n, w):
        if self.task is not None and p.base in ('scratch', 'dst'):
            for k in range(n):
                o = self.users.setdefault((p.base, p.sym, p.off + k), self.task)
                if o != self.task:
                    raise Failed('tasks %d and %d of one call both use %s' % (
                        o, self.task, 'byte %d of the scratch memory' % (p.off + k) if p.base == 'scratch' else
                        'the result element at %r' % p))

    def load_ptr(self, p):
        self.bound(p, self.fn.mod.ptrsize, 'reads')
        return super().load_ptr(p)

    def store(self, p, t, i):
        self.bound(p, width(t) // 8, 'writes')
        if not p.base.startswith(('heap', 'alloca', 'dst', 'scratch')) and 'hardware_threads' not in p.base:
            raise Failed('writes to %r' % p)
        self.note(p, width(t) // 8, 1)
        self.dead_allocas.discard(p.base)
        super().store(p, t, i)

    def nested(self, f, a):
        n = Walk.frames + 1
        self.live.add(n)
        r = super().nested(f, a)
        self.live.discard(n)
        return r

    # an argument passed by value in memory lives until the call returns
    temps = {}

    def arguments(self, i):
        t = self.temps.get((self.fn.mod.cfg, self.fn.name))
        if t is None:
            t = {}
            ops, block, inst = {}, {}, {}
            for b in self.fn.blocks:
                for j in b.insts:
                    block[id(j)] = b
                    inst[j.id] = j
                    for o in j.ops:
                        if isinstance(o, tuple) and o[0] == 'i':
                            ops.setdefault(o[1], []).append(j)

            def parameter(v):
                while v[0] == 'i' and inst[v[1]].op in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'lshr', 'extractvalue'):
                    v = inst[v[1]].ops[0]
                return v[0] == 'a'
            for j in list(inst.values()):
                if j.op != 'alloca':
                    continue
                us = list(ops.get(j.id, []))
                for u in us:
                    if u.op in ('getelementptr', 'gep', 'bitcast'):
                        us += ops.get(u.id, [])
                cs = [u for u in us if u.is_call() and not (u.callee_name() or '').startswith('llvm.')]
                if len(cs) != 1 or any((u.callee_name() or '').startswith('llvm.lifetime') for u in us
                                       if u.is_call()):
                    continue
                if all(u.op != 'load' and not (u.op == 'store' and j.d['asz'] <= 16 and parameter(u.ops[0])) and block[id(u)] is
                       block[id(cs[0])] for u in us if u.op not in ('getelementptr', 'gep', 'bitcast')):
                    t.setdefault(cs[0].id, []).append(j.id)
            self.temps[self.fn.mod.cfg, self.fn.name] = t
        return t.get(i.id, ())

    def alloc(self, size):
        self.nheap += 1
        b = 'heap%d' % self.nheap
        self.heap[b] = size
        return Ptr(b)

    def model(self, ev, i, n, a):
        if n in ('_Znwm', '_Znwj'):
            return self.alloc(a[0][2])
        if n in ('_ZdlPv', 'free', '_ZdlPvm', '_ZdlPvj'):
            if a[0].base != 'null':
                if a[0].off or a[0].sym or a[0].base not in self.heap:
                    raise Failed('releases %r' % a[0])
                del self.heap[a[0].base]
            return None
        if n == 'sysconf':
            return C(4, 64 if self.fn.mod.ptrsize == 8 else 32)
        if n in ('__cxa_guard_acquire', '__cxa_guard_release'):
            if n.endswith('release'):
                self.mem.store(a[0], C(1, 32))
            return C(1, 32)
        if 'WorkersPool' in n and 'Execute' in n and 'vector' in n:
            return self.execute(a[0], a[1])
        return NotImplemented

    task = None

    def execute(self, pool, vec):
        """WorkersPool::LegacyExecuteAndDestroyTasks"""
        if pool.base != 'pool':
            raise Failed('tasks are given to %r' % pool)
        z = self.fn.mod.ptrsize
        p, e = self.load_ptr(vec), self.load_ptr(vec.add((), z))
        ts = []
        while p != e:
            ts.append(self.load_ptr(p))
            p = p.add((), z)
        self.users = {}
        for k, t in enumerate(ts):
            self.task = k
            self.virtual(t, '3RunEv')
            self.tasks += 1
        self.task = None
        for t in ts:
            self.virtual(t, 'D0Ev')
        return None

    def virtual(self, t, what):
        v = self.load_ptr(t)
        slots = self.fn.mod.vtables().get(v.base)
        if slots is None or v.off != 2 * self.fn.mod.ptrsize:
            raise Unsupported('object of unknown class %r' % v)
        for s in slots:
            n = s[1] if s[0] in ('f', 'g') else None
            if isinstance(n, str) and n.endswith(what) and n in self.fn.mod.funcs:
                self.nested(self.fn.mod.funcs[n], [t])
                return
        raise Unsupported('no %s in %r' % (what, slots))

    def compute(self, i):
        if i.op in ('shl', 'lshr', 'ashr'):
            b = self.ref(i.ops[1])
            if not isinstance(b, list) and is_c(b) and not 0 <= b[2] < width(b):
                raise Failed('shifts a value of %d bits by %d at %s' % (width(b), sgn(b[2], width(b)), i.loc()))
        return super().compute(i)

    def call(self, i, ty):
        if i.is_asm():
            key = (i.callee[1], i.callee[2])
            a = self.asm_cache.get(key)
            if a is None:
                a = self.asm_cache[key] = asm.Asm(*key, asm.arch_of(self.fn.mod.triple))
            self.where = i.loc()
            outs = asmeval.run(self, i, a)
            vs = []
            tys = ty[1] if ty[0] == 'st' else [ty]
            for o, t in zip(outs, tys):
                if o is None:
                    vs.append(V('undef', 32))
                elif t[0] == 'ptr':
                    vs.append(o)
                elif o.base or o.sym:
                    vs.append(V('undef', t[1]))
                else:
                    vs.append(C(o.off, t[1]))
            return vs if ty[0] == 'st' else vs[0] if vs else None
        n = i.callee_name()
        if n in ('__assert_fail', 'abort'):
            raise Failed('%s is reached at %s' % (n, i.loc()))
        if n is not None and n.startswith('llvm.lifetime'):
            p = self.ref(i.ops[1])
            (self.dead_allocas.add if 'end' in n else self.dead_allocas.discard)(p.base)
            self.owner[p.base] = self.fn.name
            return None
        r = super().call(i, ty)
        for k in self.arguments(i):
            p = self.val[k]
            self.dead_allocas.add(p.base)
            self.owner[p.base] = self.fn.name
        return r


class Case:
    """one call: function kind, sizes and the shape of the operands"""

    def __init__(self, mod, name, m, n, k, shift=7, threads=0):
        self.mod, self.name, self.m, self.n, self.k, self.shift, self.threads = mod, name, m, n, k, shift, threads
        p = name.split('_')
        self.kind = p[1]
        self.legacy = self.kind in ('q8', 'i32', 'f')
        self.out = {'q8': 'q8', 'i32': 'i3', 'f': 'f3'}[self.kind] if self.legacy else p[3]
        self.order = 'RR' if self.legacy else p[5]

    def __str__(self):
        return '%s, m=%d n=%d k=%d%s%s' % (self.name[3:], self.m, self.n, self.k,
                                           ' shift=%d' % self.shift if self.out == 'q8' else '',
                                           ' max %d threads' % self.threads if self.threads else '')

    def vals(self):
        return dict(m=self.m, n=self.n, k=self.k, shift=self.shift)

    def elem(self, side, i, d):
        """(sym, off) of element d of row i of the operand"""
        if self.legacy:
            return (), i * self.k + d
        s = V((side[0] + 's',), 32)
        if self.order['lr'.index(side[0])] == 'C':
            i, d = d, i
        return (((s, i),) if i else ()), d

    def result(self, i, j):
        w = 1 if self.out == 'q8' else 4
        if self.legacy:
            return (), w * (i * self.n + j)
        s = V(('ds',), 32)
        return (((s, i),) if i else ()), w * j

    def size(self):
        n = self.name
        if self.legacy:
            n, a = 'vp_%s_scratch' % self.kind, [Ptr('A'), C(self.threads, 32)]
        else:
            n, a = n.replace('vp_st_', 'vp_size_'), [Ptr('A')]
        if 'vp_mt_' in n:
            return 1 << 40
        e = Meta(self.mod.funcs[n], a, self.vals(), {})
        e.run()
        if not is_c(e.ret):
            raise Unsupported('scratch size %s' % show(e.ret))
        return e.ret[2]

    def run(self):
        op = {s: {self.elem(s, i, d) for i in range(r) for d in range(self.k)}
              for s, r in (('lhs', self.m), ('rhs', self.n))}
        op['dst'] = {self.result(i, j) for i in range(self.m) for j in range(self.n)}
        op['scratch'] = self.size()
        a = [Ptr('A'), Ptr('lhs'), Ptr('rhs'), Ptr('dst'), Ptr('scratch')]
        if self.legacy:
            a = [Ptr('pool')] + a + [C(self.threads, 32)]
        elif self.kind == 'mt':
            a = [Ptr('context')] + a
        ev = Meta(self.mod.funcs[self.name], a, self.vals(), op)
        ev.out = self.out
        if self.kind == 'mt':
            ev.mem0.store(Ptr('context'), C(self.threads, 32))
            ev.mem0.w.setdefault(('context', ()), {})['p', self.mod.ptrsize] = Ptr('pool')
        ev.run()
        if ev.heap:
            raise Failed('%d objects are never released' % len(ev.heap))
        return ev

    def expected(self, i, j):
        """polynomial of element (i, j) before the final stage"""
        e = {}
        lm, rm, la, ra = (V((x,), 32) for x in ('lm', 'rm', 'la', 'ra'))
        for d in range(self.k):
            x = zext(V(('lhs',) + self.elem('lhs', i, d), 8), 32)
            y = zext(V(('rhs',) + self.elem('rhs', j, d), 8), 32)
            add(e, tuple(sorted((x, y), key=KEY)), 1)
            if self.legacy:
                # (x + lhs_offset) * (y + rhs_offset); the offsets are in lm, rm
                add(e, tuple(sorted((x, rm), key=KEY)), 1)
                add(e, tuple(sorted((lm, y), key=KEY)), 1)
            else:
                add(e, tuple(sorted((x, lm), key=KEY)), 1)
                add(e, tuple(sorted((y, rm), key=KEY)), 1)
        if self.legacy:
            add(e, tuple(sorted((lm, rm), key=KEY)), self.k)
            if self.out == 'q8':
                add(e, (la,), 1)
        else:
            add(e, (la,), 1)
            add(e, (ra,), 1)
        if self.out == 'q8':
            mult = V(('mult',), 32)
            e = {tuple(sorted(k + (mult,), key=KEY)): v for k, v in e.items()}
            if self.legacy:
                if self.shift:
                    add(e, (), 1 << (self.shift - 1))
            else:
                add(e, (V(('round',), 32),), 1)
        return e


CLAMP = {}


def clamped(t, nm, e, shift):
    """t is the value e shifted right and clamped to 8 bits?"""
    hits = {u for u in subterms(t) if width(u) == 32 and u[0] in ('add', 'mul', 'sub') and nm.poly(u) == e}
    if not hits:
        return ('unknown', 'accumulator not found')
    X = V('x', 32)
    u = replace(t, hits, X)
    if variables(u) - {X}:
        return ('unknown', 'further variables in ' + show(u)[:80])
    if (u, shift) not in CLAMP:
        s = spec(B('ashr', X, C(shift, 32)), [('sat', 0, 255, 8)], None)
        CLAMP[u, shift] = decide(cmp('eq', u, s))
    return CLAMP[u, shift]


def one(rep, case):
    m = case.mod
    key = case.name
    rep.functions.add(case.name[3:])
    where = 'meta/%s: %s' % ('legacy_multi_thread_gemm.h' if case.legacy else 'multi_thread_gemm.h' if
                             case.kind == 'mt' else 'single_thread_gemm.h', case)
    try:
        ev = case.run()
    except Failed as x:
        rep.bad('access', key, where, str(x), m.cfg)
        return
    except Unsupported as x:
        rep.unk('value', '%s [%s]' % (where, m.cfg), str(x))
        return
    rep.ok('access')
    rep.stat('asm instructions interpreted', getattr(ev, 'asm_steps', 0))
    rep.stat('tasks of one call', ev.tasks)
    nm = Norm()
    nbad = 0
    cols = range(case.n)
    if case.m * case.n * case.k > 600000:
        # every access is checked, values around the ends and every eighth column
        cols = [j for j in cols if j < 2 or j % 16 == 0 or j % 128 in (1, 127) or j > case.n - 3]
    for i in range(case.m):
        for j in cols:
            if case.k > 1000 and i and j and (i + j) % 3:
                continue
            sym, o = case.result(i, j)
            t = ev.mem.load(Ptr('dst', sym, o), 1 if case.out == 'q8' else 4)
            e = case.expected(i, j)
            msg = 'element (%d, %d) ' % (i, j)
            if t[0] == 'v' and isinstance(t[2], tuple) and t[2][0] == 'dst':
                r = ('false', 'is never written')
            elif case.out == 'i3':
                r = poly_value(nm, t, e)
            elif case.out == 'f3':
                r = float_value(nm, t, e, V(('scale',), 32))
            else:
                r = clamped(t, nm, e, case.shift)
            if r[0] == 'true':
                rep.ok('value')
                continue
            nbad += 1
            if r[0] == 'unknown':
                w = refute(case, t, e)
                if w:
                    r = ('false', w)
            if r[0] == 'false':
                rep.bad('value', key, where, msg + str(r[1]), m.cfg)
            else:
                rep.unk('value', '%s [%s]' % (where, m.cfg), msg + str(r[1]))
            if nbad > 2:
                return


def poly_value(nm, t, e):
    p = nm.poly(t)
    if p == e:
        return ('true',)
    miss = [k for k in e if p.get(k) != e[k]]
    extra = [k for k in p if k not in e]
    if miss:
        why = 'lacks or miscounts the term %s' % '*'.join(show(z) for z in miss[0])
    else:
        why = 'has the extra term %s' % '*'.join(show(z)[:80] for z in extra[0])
    return ('false' if linear_ok(p, e) else 'unknown', why)


def refute(case, t, e):
    """contents on which t differs from the expectation"""
    rnd = random.Random(3)
    vs = variables(t) | {v for k in e for a in k for v in variables(a)}
    if case.out == 'f3':
        return None
    for n in range(40):
        env = {v: (255 if n < 3 else rnd.randrange(256)) if v[1] == 8 else
               rnd.choice((rnd.randrange(-40, 40), rnd.randrange(-3000, 3000), rnd.getrandbits(30))) for v in vs}
        try:
            got = peval(t, env.get)
            want = 0
            for k, c in e.items():
                for a in k:
                    c *= peval(a, env.get)
                want += c
        except ValueError:
            return None
        want &= 0xffffffff
        if case.out == 'q8':
            want = max(0, min(255, sgn(want, 32) >> case.shift))
            got &= 255
        else:
            got &= 0xffffffff
        if got != want:
            return 'is %d instead of %d for some contents' % (got, want)
    return None


def cases(m, part, tier, seed):
    out = []
    for name in sorted(m.funcs):
        g = re.fullmatch(r'vp_(st|mt)_(\w\w)_(\w\w)_(\d)x(\d)_(\w\w)', name)
        if not g:
            continue
        rnd = random.Random('%s %s %s' % (seed, m.cfg, name))
        km, kn = int(g[4]), int(g[5])
        shifts = (7, 1, 16, 31, 0) if g[3] == 'q8' else (7,)
        if g[1] == 'st':
            for ml in range(km):
                for nl in range(kn):
                    for kl in range(8):
                        a, b = rnd.randrange(3), rnd.randrange(2)
                        if g[2][0] == 'C':
                            a, b = (a, b + 2) if g[2][1] == 'R' else (a + 2, b)
                        mm, nn = km * a + ml or km, kn * b + nl or kn
                        kk = 8 * rnd.choice((1, 1, 2, 3)) + kl
                        out.append(Case(m, name, mm, nn, kk, rnd.choice(shifts)))
            if g[2][0] != 'C':
                out.append(Case(m, name, km, kn, 2048 if tier != 'quick' or g[3] == 'i3' else 776, shifts[0]))
                if tier != 'quick':
                    out.append(Case(m, name, km, kn, 2047, shifts[0]))
            else:
                out.append(Case(m, name, 2 * km + 1, 17, 40, shifts[0]))
                out.append(Case(m, name, 17, 2 * kn + 1, 40, shifts[0]))
        else:
            for mm, nn, kk, t in ((41, 20, 41, 2), (20, 41, 61, 3), (9, 37, 97, 2), (61, 9, 91, 4),
                                  (12, 14, 9, 4), (5, 5, 9, 4), (13, 9, 50, 1), (1, 130, 256, 2)):
                out.append(Case(m, name, mm, nn, kk, rnd.choice(shifts), t))
    if part == 9:
        for kind in ('q8', 'i32', 'f'):
            name = 'vp_' + kind
            rnd = random.Random('%s %s %s' % (seed, m.cfg, name))
            for kl in range(8):
                for mm in range(1, 8):
                    nn = rnd.randrange(1, 14)
                    out.append(Case(m, name, mm, nn, 8 + kl, rnd.choice((7, 1, 16, 31, 0)), 1))
                    out.append(Case(m, name, nn, mm, 16 + kl, rnd.choice((7, 1, 16, 31, 0)), 1))
            for mm, nn, kk, t in ((41, 20, 41, 2), (20, 41, 41, 3), (1, 200, 200, 3), (200, 1, 170, 2),
                                  (5, 5, 9, 4), (33, 33, 33, 2), (2, 260, 2048, 1), (40, 24, 40, 0)):
                if kk > 1000 and tier == 'quick' and kind != {'aarch64': 'i32', 'armhf': 'q8'}[m.cfg.split()[0]]:
                    continue
                out.append(Case(m, name, mm, nn, kk, rnd.choice((7, 1, 16)), t))
    return out


def meta(rep, tier):
    rep.rule('value', 'every result element is the documented product of its row and column, for every content of '
                      'the operands, stride, offset and multiplier', 1000)
    rep.rule('access', 'only operand elements are read and result elements written, scratch memory is used within '
                       'the estimated size, tasks of one call share none, and no released object is used', 100)
    build.ensure_tool()
    build.add_foreign()
    build.repo_hash()
    build.resource_dir()
    items = []
    mods = []
    for cfg in CONFIGS:
        for part in range(1, 10):
            mods.append((cfg, part))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as p:
        list(p.map(lambda x: load(*x, load=False), mods))
    for cfg, part in mods:
        m = load(cfg, part)
        rep.units.add('drivers/meta.cc part %d [%s]' % (part, m.cfg))
        items += cases(m, part, tier, rep.seed)
    items.sort(key=lambda c: -c.m * c.n * c.k)
    rep.parallel(items, one)
    return ['clang 18 front end and LLVM normalisation', 'the instruction models in lib/asmeval.py',
            'the pool runs each task once and deletes it (P08)', 'index arithmetic does not overflow']


def load(cfg, part, **kw):
    return build.module('meta.cc', cfg, extra=['-DVP_PART=%d' % part], flatten=False, scev=False, **kw)

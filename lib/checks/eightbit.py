"""P14: EightBitIntGemm computes the documented product whatever happened
before; P09: its global state is used under its lock only."""
import random
import re

import build
from ir import forward
from lane import Ptr, Unsupported, V, C, B, mk, show, width, zext, is_c, linear, sgn, ex, const_bytes, TRUE
from walk import Walk, Failed
from checks.entry import Entry, value, spec
from checks.gemm import DotNorm, add, KEY
from checks.unpack import KEEP as PRIM, s_sat

KEEP = ('HowManyThreads<', 'gemmlowp::PackLhs<', 'gemmlowp::PackRhs<', 'gemmlowp::UnpackResult<',
        'gemmlowp::Compute<', 'EightBitIntGemmImpl<', 'EightBitIntGemmInt32Impl<',
        'meta::multi_thread_gemm_', 'meta::gemm_q8_scratch', 'meta::gemm_f_scratch') + PRIM
CONFIGS = ['x86', 'sse4', 'avx2', 'aarch64', 'armhf', 'mips64+msa', 'aarch64+meta', 'armhf+meta']
DEPTHS = ['A8B8', 'A5B7']
FILE = 'eight_bit_int_gemm/eight_bit_int_gemm.cc'


def modules():
    build.add_foreign()
    for c in ('aarch64', 'armhf'):
        build.CONFIGS.setdefault(c + '+meta', build.CONFIGS[c] + ['-DGEMMLOWP_USE_META_FASTPATH'])
    build.prefetch([('eightbit.cc', c) for c in CONFIGS], scev=False, keep=KEEP)
    return {c: build.module('eightbit.cc', c, scev=False, keep=KEEP) for c in CONFIGS}


def sync(m, g):
    """a mutex, or the guard of a function's static variable"""
    x = m.globals.get(g) or {}
    return g.startswith(('_ZGV', 'llvm.')) or bool(re.search('[Mm]utex', g + ' ' + x.get('ty', '')))


class Call:
    """one operation of a history"""

    def __init__(self, kind, t=None, m=0, n=0, k=0, ld=None, shift=0, depth=0, arg=0):
        self.kind, self.t, self.m, self.n, self.k = kind, t, m, n, k
        self.ld, self.shift, self.depth, self.arg = ld, shift, depth, arg

    def __str__(self):
        if self.kind == 'free':
            return 'FreePersistentResources()'
        if self.kind == 'threads':
            return 'SetMaxNumThreads(%d)' % self.arg
        return 'EightBitIntGemm(%s, transpose %s, m=%d n=%d k=%d, strides %s, %s%s)' % (
            {'u8': 'uint8', 'f32': 'float'}[self.kind], ''.join('NT'[x] for x in self.t), self.m, self.n, self.k,
            '/'.join(map(str, self.ld)), DEPTHS[self.depth],
            ', shift %d' % self.shift if self.kind == 'u8' else '')


class History(Entry):
    """walks a sequence of calls of the interface on one memory"""

    def __init__(self, mod, parity):
        self.mod = mod
        self.parity = parity
        self.aligned, self.kinds, self.ready, self.lockbad = {}, {}, set(), []
        fn = mod.funcs['vp__free']
        self.formats = [[x[1] for x in mod.globals['vp_format_' + d]['init'][1]] for d in DEPTHS]
        self.setup(fn, self.formats[0], 8)
        self.pos = 0
        self.held = []
        self.asked = None
        Walk.__init__(self, fn, args=[], calls=None, elt=self.elt)
        self.call_model = self.model
        self.opaque = {'srdhm'}
        self.consts = ('null', 'undef')
        self.mem = self.mem0
        self.cond = TRUE
        self.state = set()
        self.statics = set()
        for n, g in mod.globals.items():
            if not g.get('const') and 'start' in g:
                self.statics.add(n)
                t = C(0, 8 * g['size']) if g['zero'] else const_bytes(g['start'])
                self.mem.store(Ptr(n), t)

    def elt(self, b):
        return 32 if b[:1] == 'c' and b[1:].isdigit() and self.kinds.get(b) == 'f32' else 8

    def lockcheck(self, p, what):
        b = p.base
        if b in self.statics and not sync(self.mod, b) or b in self.heap:
            if not self.held:
                self.lockbad.append('%s %s without holding the lock' % (what, 'the global state' if b in self.heap
                                                                        else b))

    def load(self, p, n, bits):
        self.lockcheck(p, 'reads')
        return Entry.load(self, p, n, bits)

    def load_ptr(self, p):
        self.lockcheck(p, 'reads')
        return Entry.load_ptr(self, p)

    def store(self, p, t, i):
        self.lockcheck(p, 'writes')
        if re.fullmatch(r'[ab]\d+', p.base):
            raise Failed('writes to operand %s' % p.base[0])
        Entry.store(self, p, t, i)

    def bound(self, p, n, what):
        self.lockcheck(p, what)
        Entry.bound(self, p, n, what)

    def inst(self, i):
        if i.op == 'store':
            p = self.ref(i.ops[1])
            if isinstance(p, Ptr):
                self.lockcheck(p, 'writes')
        Entry.inst(self, i)

    def low(self, v):
        """the value of an address modulo 256, or None"""
        f, k = linear(v)
        for t, c in f.items():
            if not (t[0] == 'v' and isinstance(t[2], tuple) and t[2][0] == 'addr' and t[2][1] in self.aligned):
                return None
            k += c * self.aligned[t[2][1]]
        return k

    def compute(self, i):
        r = Entry.compute(self, i)
        if i.op in ('and', 'urem') and not isinstance(r, (list, Ptr)) and r is not None and not is_c(r):
            a, b = self.ref(i.ops[0]), self.ref(i.ops[1])
            if is_c(b) and not is_c(a):
                m = b[2] if i.op == 'and' else b[2] - 1
                if 0 < m < 256 and m & (m + 1) == 0:
                    x = self.low(a)
                    if x is not None:
                        return C(x & m, width(r))
        return r

    def alloc(self, size, align=16):
        p = Entry.alloc(self, size)
        if not self.held:
            self.lockbad.append('allocates global state without holding the lock')
        # every alignment the allocator may return, in turn
        self.aligned[p.base] = 0 if align > 16 else 16 * ((self.nheap + self.parity) % 2)
        return p

    def model(self, ev, i, n, a):
        if n in ('pthread_mutex_lock', 'pthread_mutex_unlock'):
            if n.endswith('_lock'):
                if a[0] in self.held:
                    self.lockbad.append('locks a mutex it already holds')
                self.held.append(a[0])
                if a[0].base not in self.ready:
                    self.lockbad.append('locks a mutex that is not initialised')
            elif a[0] not in self.held:
                self.lockbad.append('unlocks a mutex it does not hold')
            else:
                self.held.remove(a[0])
            return C(0, 32)
        if n == 'pthread_mutex_init':
            self.ready.add(a[0].base)
            return C(0, 32)
        if n in ('__cxa_guard_acquire', '__cxa_guard_release'):
            if n.endswith('release'):
                self.mem.store(a[0], C(1, 32))
            return C(1, 32)
        if n in ('__cxa_atexit', '__aeabi_atexit'):
            return C(0, 32)
        if n in ('_Znam', '_Znaj'):
            return self.alloc(a[0][2])
        if n in ('_ZdaPv', '_ZdaPvm', '_ZdaPvj'):
            return Entry.model(self, ev, i, '_ZdlPv', a)
        if n == 'posix_memalign':
            x = self.alloc(a[2][2], a[1][2])
            self.mem.w.setdefault((a[0].base, a[0].sym), {})[('p', a[0].off)] = x
            return C(0, 32)
        if 'HowManyThreads' in n:
            self.asked = a
        m = re.search(r'multi_thread_gemm_(q8|f)', n)
        if m:
            return self.meta(m[1], a)
        if re.search(r'gemm_(q8|f)_scratch', n):
            return C(4096, 32)
        return Entry.model(self, ev, i, n, a)

    def meta(self, kind, a):
        """contract of the meta library: packed row-major operands"""
        scratch, lhs, rhs, m, n, k, lo, ro = a[2:10]
        for x in (m, n, k):
            if not is_c(x):
                raise Unsupported('size %r' % (x,))
        self.bound(scratch, 1, 'uses as scratch memory')
        if self.low(V(('addr', scratch.base), 64)) is not None and (self.aligned[scratch.base] + scratch.off) % 32:
            raise Failed('the scratch memory is not aligned')
        m, n, k = m[2], n[2], k[2]
        out = a[-1]
        for i in range(m):
            for j in range(n):
                x = C(0, 32)
                for d in range(k):
                    u = zext(self.load(lhs.add((), i * k + d), 1, 8), 32)
                    v = zext(self.load(rhs.add((), j * k + d), 1, 8), 32)
                    x = B('add', x, B('mul', B('add', u, lo), B('add', v, ro)))
                if kind == 'q8':
                    so, mo, sh = a[10:13]
                    if not is_c(sh):
                        raise Unsupported('shift %r' % (sh,))
                    t = spec(x, [('add', so), ('mul', mo), ('rdiv', sh[2]), ('sat', 0, 255, 8)], lambda q: q)
                    self.store(out.add((), i * n + j), t, None)
                else:
                    t = mk('fn', 32, 'fmul', mk('fn', 32, 'sitofp', x), a[10])
                    self.store(out.add((), 4 * (i * n + j)), t, None)
        return None

    # -- operations --------------------------------------------------------
    def call_of(self, pos, c):
        """performs operation c (the pos-th of the history)"""
        self.pos = pos
        self.touched = set()
        self.asked = None
        if c.kind == 'free':
            self.nested(self.mod.funcs['vp__free'], [])
        elif c.kind == 'threads':
            self.nested(self.mod.funcs['vp__threads'], [C(c.arg, 32)])
        else:
            self.formats_for(c.depth)
            n = self.names(pos)
            self.kinds[n['c']] = c.kind
            lda, ldb, ldc = (C(x, 32) for x in c.ld)
            t = [C(x, 1) for x in c.t]
            bits = self.mod.globals['vp_depths']['init'][1][c.depth][1]
            a = t + [C(x, 32) for x in (c.m, c.n, c.k)] + [
                Ptr(n['a']), V(n['ao'], 32), lda, Ptr(n['b']), V(n['bo'], 32), ldb, Ptr(n['c']), V(n['co'], 32)]
            if c.kind == 'u8':
                a += [V(n['cm'], 32), C(c.shift, 32)]
            a += [ldc, C(bits, 32)]
            self.nested(self.mod.funcs['vp__' + c.kind], a)
        if self.held:
            self.lockbad.append('returns with the lock held')
            self.held = []
        if c.kind == 'free' and self.heap:
            self.lockbad.append('%d buffers are not released' % len(self.heap))

    def names(self, pos):
        return {x: '%s%d' % (x, pos) for x in ('a', 'ao', 'b', 'bo', 'c', 'co', 'cm')}

    def formats_for(self, d):
        f = self.formats[d]
        order = {f[10]: 'D', f[11]: 'W'}
        self.lf = (f[0], f[1], order.get(f[2], 'G'), f[3])
        self.rf = (f[5], f[6], order.get(f[7], 'G'), f[8])
        self.kind = 'S' if f[4] else 'U'


def histories(tier, cfg):
    rnd = random.Random('eightbit ' + cfg)
    meta = 'meta' in cfg
    out = []
    ts = [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]

    def gemm(kind, t, m, n, k, pad=None, shift=None, depth=None):
        pad = pad if pad is not None else [rnd.choice((0, 0, 1, 3)) for _ in range(3)]
        ld = [(k if t[0] else m) + pad[0], (n if t[1] else k) + pad[1], (n if t[2] else m) + pad[2]]
        return Call(kind, t, m, n, k, ld, rnd.choice((0, 1, 7, 21)) if shift is None else shift,
                    rnd.randrange(2) if depth is None else depth)
    free = Call('free')
    sizes = [(1, 1, 1), (3, 5, 2), (5, 3, 2), (1, 4, 3), (6, 1, 3), (4, 4, 1), (2, 9, 1), (13, 2, 1), (5, 0, 2),
             (0, 3, 2)]
    if meta:
        sizes += [(1, 4, 9), (3, 1, 8), (1, 1, 10), (2, 3, 8), (4, 2, 7)]
    for t in ts:
        for kind in ('u8', 'f32'):
            h = []
            for s in sizes:
                h.append(gemm(kind, t, *s))
                if rnd.random() < .2:
                    h.append(free)
            out.append(h + [free])
            h = []
            for s in rnd.sample(sizes, 5):
                h.append(gemm(rnd.choice(('u8', 'f32')), rnd.choice(ts), *s))
            out.append(h + [free, gemm(kind, t, 2, 3, 1), free])
        if meta:
            for kind in ('u8', 'f32'):
                for s in sizes[-5:]:
                    h = [gemm(kind, t, *s, pad=p, depth=0) for p in
                         ((0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2), (1, 1, 1))]
                    out.append(h + [free])
    # growing and shrinking scratch memory
    for t in ((0, 0, 0), (1, 0, 1), (0, 1, 1)):
        out.append([gemm('f32', t, *s) for s in ((2, 2, 1), (5, 4, 1), (3, 3, 1), (7, 6, 1), (1, 1, 1))] + [free, free])
    out.append([free, Call('threads', arg=3), gemm('u8', (0, 0, 0), 2, 2, 2), free, gemm('u8', (0, 0, 0), 2, 2, 2),
                Call('threads', arg=1), free])
    for _ in range(30 if tier != 'quick' else 2):
        h = []
        for _ in range(8):
            h.append(rnd.choice((free, Call('threads', arg=rnd.randrange(1, 9)))) if rnd.random() < .3 else
                     gemm(rnd.choice(('u8', 'f32')), rnd.choice(ts), rnd.randrange(1, 8), rnd.randrange(1, 8),
                          rnd.randrange(1, 12)))
        out.append(h + [free])
    return out


TRUST = ['clang 18 front end and LLVM normalisation', 'the models of SIMD intrinsics in lib/lane.py',
         'kernels compute the exact product of the packed blocks they are given (P24)',
         'the fixed-point primitives (P17)', 'distinct allocations do not overlap',
         'the meta library computes the product of packed row-major operands']


def check(rep, tier, rule, one):
    mods = modules()
    work = []
    for cfg, m in mods.items():
        rep.units.add('drivers/eightbit.cc [%s]' % m.cfg)
        for k, h in enumerate(histories(tier, cfg)):
            work.append((m, k, h))
    work.sort(key=lambda x: -len(x[2]))
    rep.parallel(work, one)
    return TRUST


def values(rep, tier):
    rep.rule('value', 'every result element is the documented product of its own row and column, in every call of '
                      'every history', 1000)
    rep.rule('access', 'a call reads operand elements only, writes result elements only and uses its buffers '
                       'within their size', 50)
    return check(rep, tier, 'value', one)


def one(rep, item):
    m, number, hist = item
    ev = History(m, number)
    nm = DotNorm()
    done = []
    threads = 1
    for pos, c in enumerate(hist):
        done.append(str(c))
        where = '%s: %s' % (FILE, done[-1] if pos == 0 else '%s after %d other calls' % (done[-1], pos))
        key = '%s %s %s' % (c.kind, c.t and ''.join('NT'[x] for x in c.t), DEPTHS[c.depth])
        rep.functions.add(key)
        try:
            ev.call_of(pos, c)
        except Failed as x:
            rep.bad('access', key, where, '%s (history: %s)' % (x, '; '.join(done)), m.cfg)
            return
        except Unsupported as x:
            rep.unk('value', '%s [%s]' % (where, m.cfg), str(x))
            return
        if c.kind == 'threads':
            threads = c.arg
        elif c.kind == 'free':
            threads = 1
        elif ev.asked is not None and ev.asked[0] != C(threads, 32):
            rep.bad('value', key, where, 'the thread limit in force is %s, not %d' % (show(ev.asked[0]), threads),
                    m.cfg)
        if c.kind in ('u8', 'f32'):
            final(rep, m, ev, nm, pos, c, key, where, done)


def final(rep, m, ev, nm, pos, c, key, where, done):
    n = ev.names(pos)
    elt = 1 if c.kind == 'u8' else 4

    def at(row, ld, r, q):
        return r * ld + q if row else q * ld + r
    A = {(r, d): at(c.t[0], c.ld[0], r, d) for r in range(c.m) for d in range(c.k)}
    Bb = {(d, q): at(c.t[1], c.ld[1], d, q) for d in range(c.k) for q in range(c.n)}
    D = {(r, q): at(c.t[2], c.ld[2], r, q) for r in range(c.m) for q in range(c.n)}
    vacuous = not (c.m and c.n and c.k)
    ok = True
    for b, sym, o in ev.touched:
        if b not in (n['a'], n['b']) or sym or o not in (A if b == n['a'] else Bb).values():
            rep.bad('access', key, where, 'reads byte %d of %s, outside the operand' % (o, b), m.cfg)
            ok = False
            break
    cells = {elt * o + z for o in D.values() for z in range(elt)}
    for (b, sym), ws in ev.mem.w.items():
        if b == n['c']:
            bad = [o for o in ws if sym or o not in cells]
            if bad:
                rep.bad('access', key, where, 'writes byte %s of the result\'s storage, outside its elements' % bad[0],
                        m.cfg)
                ok = False
    if ok:
        rep.ok('access')
    if vacuous and c.kind == 'u8' or not D:
        return
    nbad = 0
    for (r, q), o in D.items():
        t = ev.mem.load(Ptr(n['c'], (), elt * o), elt)
        e, x = {}, C(0, 32)
        a, b = V(n['ao'], 32), V(n['bo'], 32)
        for d in range(c.k):
            u, v = (zext(V((n[w], (), z), 8), 32) for w, z in (('a', A[r, d]), ('b', Bb[d, q])))
            for p in ((u, v), (u, b), (a, v), (a, b)):
                add(e, tuple(sorted(p, key=KEY)), 1)
            x = B('add', x, B('mul', B('add', u, a), B('add', v, b)))
        msg = 'element (%d, %d) ' % (r, q)
        if c.kind == 'f32':
            res = float_value(nm, t, e, V(n['co'], 32))
        else:
            seq = [('add', 'co'), ('mul', 'cm'), ('rdiv', c.shift), ('sat', 0, 255, 8)]
            seq = [(k[0], ('scalar', k[1], 0)) if k[0] in ('add', 'mul') else k for k in seq]
            res = value(nm, t, e, x, seq, lambda p: V(n[p[1]], 32))
        if res[0] == 'true':
            rep.ok('value')
            continue
        nbad += 1
        if t[0] == 'v' and isinstance(t[2], tuple) and t[2][0] == n['c']:
            rep.bad('value', key, where, msg + 'is never written', m.cfg)
        elif res[0] == 'false':
            rep.bad('value', key, where, msg + res[1] + ' (history: %s)' % '; '.join(done), m.cfg)
        else:
            rep.unk('value', '%s [%s]' % (where, m.cfg), msg + res[1])
        if nbad > 2:
            break


def float_value(nm, t, e, scale):
    if t[0] != 'fn' or t[2] != 'fmul' or set(map(repr, t[3:])) - {repr(scale)} == set(map(repr, t[3:])):
        return ('unknown', 'is %s' % show(t)[:80])
    o = t[3] if t[4] == scale else t[4]
    if o[0] != 'fn' or o[2] != 'sitofp':
        return ('unknown', 'is %s' % show(t)[:80])
    if nm.poly(o[3]) == e:
        return ('true',)
    miss = [k for k in e if nm.poly(o[3]).get(k) != e[k]]
    return ('false', 'is not the product: %s differs' % '*'.join(show(z) for z in (miss or list(nm.poly(o[3])))[0]))


# ---------------------------------------------------------------------------
# P09: the lock

EXEMPT = re.compile(r'llvm\.|pthread_mutex_init$|__cxa_|__aeabi_atexit$|sysconf$|__assert_fail$|abort$|fprintf$')


def locks(rep, tier):
    rep.rule('lock', 'on every path of a public function the global context and scratch memory, and everything '
                     'reached through them, is used between locking and unlocking one global mutex', 8)
    rep.rule('release', 'on every path the mutex is locked once and unlocked before returning', 8)
    rep.rule('history', 'over every history of calls nothing is used after release, FreePersistentResources '
                        'releases everything, and later calls start afresh', 50)
    r = check(rep, tier, 'history', one_lock)
    mods = modules()
    for m in mods.values():
        mutexes = set()
        for name in ('vp__u8', 'vp__f32', 'vp__threads', 'vp__free'):
            paths(rep, m, m.funcs[name], mutexes)
        if len(mutexes) != 1:
            rep.bad('lock', 'mutex', FILE, 'the public functions lock %d different mutexes' % len(mutexes), m.cfg)
    return r


def refs(ops):
    for o in ops:
        if isinstance(o, tuple) and o:
            if o[0] == 'g':
                yield o[1]
            else:
                yield from refs(o[1:])


def root(fn, o, defs, seen=None):
    """what a pointer operand may refer to: set of 'own' (arguments, stack, constants), 'sync', 'state'"""
    seen = set() if seen is None else seen
    if o[0] == 'g':
        x = fn.mod.globals.get(o[1])
        if x is not None and x.get('const'):
            return {'own'}
        if sync(fn.mod, o[1]):
            return {'sync'}
        return {'state'} if x is not None and not x.get('decl') else {'own'}
    if o[0] == 'cg':
        return root(fn, o[1], defs, seen)
    if o[0] == 'i':
        if o[1] in seen:
            return set()
        seen.add(o[1])
        d = defs[o[1]]
        if d.op == 'alloca':
            return {'own'}
        if d.op in ('gep', 'getelementptr', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'add', 'sub', 'and'):
            return root(fn, d.ops[0], defs, seen)
        if d.op == 'phi':
            r = set()
            for v, _ in d.ops:
                r |= root(fn, v, defs, seen)
            return r
        if d.op == 'select':
            return root(fn, d.ops[1], defs, seen) | root(fn, d.ops[2], defs, seen)
        return {'state'}
    return {'own'}


def paths(rep, m, fn, mutexes):
    defs = {i.id: i for b in fn.blocks for i in b.insts}
    what = {'vp__u8': 'EightBitIntGemm (uint8)', 'vp__f32': 'EightBitIntGemm (float)',
            'vp__threads': 'SetMaxNumThreads', 'vp__free': 'FreePersistentResources'}[fn.name]

    def mutex(i):
        for g in refs(i.ops):
            return g
        return repr(i.ops[0])

    def transfer(i, s):
        if is_lock(i):
            return frozenset(['held' if i.callee_name().endswith('_lock') else 'free'])
        return s

    # the mutexes of workers, inside the state, are not the interface's lock
    def is_lock(i):
        return i.is_call() and i.callee_name() in ('pthread_mutex_lock', 'pthread_mutex_unlock') and \
            root(fn, i.ops[0], defs) == {'sync'}
    before = forward(fn, frozenset(['free']), transfer, lambda a, b: a | b)
    n = 0
    held = frozenset(['held'])
    for b in fn.blocks:
        if not b.insts or b.insts[0].id not in before:
            continue
        for i in b.insts:
            s = before[i.id]
            if is_lock(i):
                lock = i.callee_name().endswith('_lock')
                if lock:
                    mutexes.add(mutex(i))
                if (held if not lock else frozenset(['free'])) != s:
                    rep.bad('release', what, '%s: %s' % (FILE, what), 'at %s the mutex is %s on some path' % (
                        i.loc(), 'locked twice' if lock else 'unlocked without being held'), m.cfg)
                else:
                    rep.ok('release')
                continue
            need = None
            if i.op in ('load', 'store', 'atomicrmw', 'cmpxchg'):
                p = i.ops[1] if i.op == 'store' else i.ops[0]
                if 'state' in root(fn, p, defs):
                    need = '%s at %s' % ({'load': 'reads', 'store': 'writes'}.get(i.op, 'updates') +
                                         ' the global state', i.loc())
            elif i.is_call() and not EXEMPT.match(i.callee_name() or ''):
                need = 'calls %s at %s' % (fn.mod.funcs[i.callee_name()].dem if i.callee_name() in fn.mod.funcs
                                           else i.callee_name() or 'a function pointer', i.loc())
            if need:
                n += 1
                if s != held:
                    rep.bad('lock', what, '%s: %s' % (FILE, what), '%s without holding the lock on some path' % need,
                            m.cfg)
                else:
                    rep.ok('lock')
        t = b.term
        if t.op == 'ret' and before.get(t.id) != frozenset(['free']):
            rep.bad('release', what, '%s: %s' % (FILE, what), 'may return with the mutex held', m.cfg)
    rep.functions.add(what)
    if not n:
        rep.unk('lock', '%s: %s [%s]' % (FILE, what, m.cfg), 'no use of the global state found')


def one_lock(rep, item):
    m, number, hist = item
    if number % 3:
        return
    ev = History(m, number)
    done = []
    for pos, c in enumerate(hist):
        done.append(str(c))
        where = '%s: %s' % (FILE, done[-1])
        key = '%s %s' % (c.kind, c.t and ''.join('NT'[x] for x in c.t))
        bad = None
        try:
            ev.call_of(pos, c)
        except Failed as x:
            bad = [str(x)]
        except Unsupported as x:
            rep.unk('history', '%s [%s]' % (where, m.cfg), str(x))
            return
        for x in (bad or ev.lockbad)[:2]:
            rep.bad('history', key, where, '%s (history: %s)' % (x, '; '.join(done)), m.cfg)
        if bad or ev.lockbad:
            return
        rep.ok('history')

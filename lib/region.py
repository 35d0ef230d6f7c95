"""Abstract interpretation of scalar terms (lib/lane.py) in a domain of affine
forms over integer boxes, with case splitting.

decide(cond) establishes that a 1-bit term is true for every value of its
variables.  The input space is partitioned into regions (boxes plus affine
inequalities); in one region every subterm has a value that is one affine
form of the region's variables, or the region is split.  Nothing is
enumerated: a region usually stands for 2^30 or more inputs.  A region in
which the condition is false is reported only with a witness at which the
terms, evaluated exactly, disagree; what the domain cannot decide is
reported as unknown.
"""
import time
from lane import is_c, width, sgn, variables, C, ex, cat

LIMIT = 4000


class Split(Exception):
    def __init__(self, cases):
        self.cases = cases      # list of lists of (aff, lo, hi)


class Decompose(Exception):
    def __init__(self, aff, mod):
        self.aff, self.mod = aff, mod


class Unknown(Exception):
    pass


class Aff:
    __slots__ = ('c', 'm')

    def __init__(self, c=0, m=()):
        self.c = c
        self.m = m          # tuple of (var, coef), sorted

    def __repr__(self):
        return ' + '.join([str(self.c)] + ['%d*%s' % (k, v) for v, k in self.m])

    def __eq__(self, o):
        return self.c == o.c and self.m == o.m

    def __hash__(self):
        return hash((self.c, self.m))

    def const(self):
        return not self.m

    def add(self, o, s=1):
        d = dict(self.m)
        for v, k in o.m:
            d[v] = d.get(v, 0) + s * k
        return mkaff(self.c + s * o.c, d)

    def scale(self, k):
        return Aff(self.c * k, tuple((v, c * k) for v, c in self.m)) if k else Aff(0)

    def plus(self, n):
        return Aff(self.c + n, self.m)


def mkaff(c, d):
    return Aff(c, tuple(sorted(((v, k) for v, k in d.items() if k), key=lambda x: repr(x[0]))))


def AV(v):
    return Aff(0, ((v, 1),))


def prodvar(a, b):
    return ('P',) + tuple(sorted((a, b), key=repr))


def isprod(v):
    return v[0] == 'P'


class Region:
    def __init__(self):
        self.box = {}        # var -> [lo, hi]
        self.sub = {}        # var -> Aff over live vars
        self.cons = {}       # monomials tuple (normalised) -> [lo, hi]
        self.fresh = 0

    def copy(self):
        r = Region()
        r.box = dict(self.box)
        r.sub = dict(self.sub)
        r.cons = dict(self.cons)
        r.fresh = self.fresh
        return r

    # -- values ---------------------------------------------------------
    def norm(self, a):
        """rewrite a over live variables"""
        ch = True
        n = 0
        while ch:
            ch = False
            n += 1
            if n > 50:
                raise Unknown('substitution')
            out = Aff(a.c)
            for v, k in a.m:
                if isprod(v) and v not in self.sub:
                    x, y = v[1], v[2]
                    if x in self.sub or y in self.sub:
                        fx = self.sub.get(x, AV(x))
                        fy = self.sub.get(y, AV(y))
                        out = out.add(self.product(fx, fy).scale(k))
                        ch = True
                        continue
                elif v in self.sub:
                    out = out.add(self.sub[v].scale(k))
                    ch = True
                    continue
                out = out.add(AV(v).scale(k))
            a = out
        return a

    @staticmethod
    def product(x, y):
        if x.const():
            return y.scale(x.c)
        if y.const():
            return x.scale(y.c)
        out = Aff(x.c * y.c)
        out = out.add(Aff(0, x.m).scale(y.c)).add(Aff(0, y.m).scale(x.c))
        for v, k in x.m:
            for w, l in y.m:
                if isprod(v) or isprod(w):
                    raise Unknown('product of degree three')
                out = out.add(AV(prodvar(v, w)).scale(k * l))
        return out

    def vrange(self, v):
        if isprod(v):
            a, b = self.vrange(v[1]), self.vrange(v[2])
            if v[1] == v[2]:
                hi = max(a[0] * a[0], a[1] * a[1])
                lo = 0 if a[0] <= 0 <= a[1] else min(a[0] * a[0], a[1] * a[1])
            else:
                ps = [x * y for x in a for y in b]
                lo, hi = min(ps), max(ps)
            if v in self.box:
                lo, hi = max(lo, self.box[v][0]), min(hi, self.box[v][1])
            return lo, hi
        return self.box[v]

    def rng(self, a):
        a = self.norm(a)
        lo = hi = a.c
        for v, k in a.m:
            l, h = self.vrange(v)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        # tighten with a stored constraint over the same monomials
        if len(a.m) > 1:
            key, s, g = primitive(a.m)
            for ck, (cl, ch) in self.cons.items():
                if ck == key:
                    l, h = (cl * s * g, ch * s * g) if s > 0 else (ch * s * g, cl * s * g)
                    lo, hi = max(lo, a.c + l), min(hi, a.c + h)
        for ck, (cl, ch) in self.cons.items():
            # a = q * constraint + rest, for each leading monomial
            d = dict(a.m)
            v0, k0 = ck[0]
            if v0 in d and d[v0] % k0 == 0 and len(a.m) <= 4:
                q = d[v0] // k0
                rest = Aff(a.c, a.m).add(Aff(0, ck), -q)
                if len(rest.m) < len(a.m):
                    l = h = rest.c
                    for v, k in rest.m:
                        x, y = self.vrange(v)
                        l += min(k * x, k * y)
                        h += max(k * x, k * y)
                    lo = max(lo, l + min(q * cl, q * ch))
                    hi = min(hi, h + max(q * cl, q * ch))
        return lo, hi

    # -- assumptions ----------------------------------------------------
    def assume(self, a, lo, hi):
        """region and lo <= a <= hi; None when empty"""
        r = self.copy()
        work = [(a, lo, hi)]
        n = 0
        while work:
            n += 1
            if n > 400:
                break
            a, lo, hi = work.pop()
            a = r.norm(a)
            l, h = r.rng(a)
            lo = l if lo is None else max(lo, l)
            hi = h if hi is None else min(hi, h)
            if lo > hi:
                return None
            if (lo, hi) == (l, h) and lo != hi:
                continue
            if a.const():
                continue
            lo, hi = lo - a.c, hi - a.c
            if len(a.m) == 1:
                v, k = a.m[0]
                if k < 0:
                    lo, hi, k = -hi, -lo, -k
                lo, hi = -((-lo) // k), hi // k
                if lo > hi:
                    return None
                l, h = r.vrange(v)
                nl, nh = max(l, lo), min(h, hi)
                if nl > nh:
                    return None
                if nl == nh and not isprod(v):
                    r.substitute(v, Aff(nl), work)
                    continue
                if (nl, nh) != (l, h) or v in r.box:
                    r.box[v] = (nl, nh)
                if (nl, nh) != (l, h):
                    for ck, (cl, ch) in r.cons.items():
                        if any(x == v for x, _ in ck):
                            r.propagate(ck, cl, ch, work)
                    if not isprod(v):
                        for p in list(r.box):
                            if isprod(p) and v in p[1:]:
                                q = r.vrange(p)
                                if q[0] > q[1]:
                                    return None
                continue
            key, s, g = primitive(a.m)
            lo, hi = (lo, hi) if s > 0 else (-hi, -lo)
            lo, hi = -((-lo) // g), hi // g
            if lo > hi:
                return None
            if lo == hi:
                one = [(v, k) for v, k in key if abs(k) == 1 and not isprod(v)
                       and not any(isprod(w) and v in w[1:] for w, _ in key)]
                if one:
                    v, k = one[-1]
                    # k v + rest = lo
                    rest = Aff(0, tuple(x for x in key if x[0] != v))
                    r.substitute(v, Aff(lo).add(rest, -1).scale(k), work)
                    continue
            old = r.cons.get(key)
            if old:
                lo, hi = max(lo, old[0]), min(hi, old[1])
                if lo > hi:
                    return None
            r.cons[key] = (lo, hi)
            r.propagate(key, lo, hi, work)
        for ck, (cl, ch) in list(r.cons.items()):
            l, h = r.rng(Aff(0, ck))
            if l > ch or h < cl:
                return None
        return r

    def propagate(self, key, lo, hi, work):
        tot_l = tot_h = 0
        rs = []
        for v, k in key:
            a, b = self.vrange(v)
            x, y = min(k * a, k * b), max(k * a, k * b)
            rs.append((v, k, x, y))
            tot_l += x
            tot_h += y
        for v, k, x, y in rs:
            # k v in [lo - (tot_h - y), hi - (tot_l - x)]
            a, b = lo - (tot_h - y), hi - (tot_l - x)
            if a > x or b < y:
                work.append((AV(v).scale(k), a, b))

    def substitute(self, v, aff, work):
        box = self.box.pop(v, None)
        self.sub[v] = aff
        for u in list(self.sub):
            if u != v:
                self.sub[u] = self.norm(self.sub[u])
        if box and not aff.const():
            work.append((aff, box[0], box[1]))
        elif box and not box[0] <= aff.c <= box[1]:
            work.append((Aff(1), 0, 0))
        old = self.cons
        self.cons = {}
        for key, (lo, hi) in old.items():
            if any(x == v or (isprod(x) and v in x[1:]) for x, _ in key):
                work.append((Aff(0, key), lo, hi))
            else:
                self.cons[key] = (lo, hi)
        for p in list(self.box):
            if isprod(p) and v in p[1:]:
                b = self.box.pop(p)
                work.append((AV(p), b[0], b[1]))

    def decompose(self, aff, mod):
        """introduce q, r with (part of) aff = mod*q + r, 0 <= r < mod"""
        aff = self.norm(aff)
        from math import gcd
        best = None
        for v, k in aff.m:
            if k % mod and mod % abs(k) == 0:
                best = best or (v, k)
        nd = [(v, k) for v, k in aff.m if k % mod]
        r = self.copy()
        if best is None:
            raise Unknown('remainder of %r by %d' % (aff, mod))
        r.fresh += 1
        q, s = ('q', r.fresh), ('r', r.fresh)
        work = []
        if len(nd) == 1:
            v, k = best
            m = mod // abs(k)
            lo, hi = r.vrange(v)
            r.box[v] = (lo, hi)
            r.box[q] = (lo // m, hi // m)
            r.box[s] = (0, m - 1)
            r.substitute(v, AV(q).scale(m).add(AV(s)), work)
        else:
            # a new variable for the whole remainder-relevant sum
            ones = [(v, k) for v, k in nd if abs(k) == 1 and isprod(v)] or \
                [(v, k) for v, k in nd if abs(k) == 1]
            if not ones:
                raise Unknown('remainder of a sum %r by %d' % (aff, mod))
            v, k = ones[0]
            r.box[v] = r.vrange(v)
            tot = Aff(0, tuple(nd))
            lo, hi = r.rng(tot)
            r.box[q] = (lo // mod, hi // mod)
            r.box[s] = (0, mod - 1)
            S = AV(q).scale(mod).add(AV(s))
            # k v = S - rest
            rest = Aff(0, tuple(x for x in nd if x[0] != v))
            r.substitute(v, S.add(rest, -1).scale(k), work)
        for var in (q, s):
            b = r.box.get(var)
            if b and b[0] == b[1]:
                work.append((AV(var), b[0], b[1]))
                r.box[var] = b
        out = r
        for a, lo, hi in work:
            out = out.assume(a, lo, hi)
            if out is None:
                return None
        for var in (q, s):
            b = out.box.get(var)
            if b and b[0] == b[1]:
                out = out.fixvar(var, b[0])
                if out is None:
                    return None
        return out

    def fixvar(self, v, n):
        r = self.copy()
        work = []
        r.substitute(v, Aff(n), work)
        for a, lo, hi in work:
            r = r.assume(a, lo, hi)
            if r is None:
                return None
        return r

    # -- points ---------------------------------------------------------
    def points(self, base):
        """some assignments of the base variables inside the region"""
        live = sorted({v for v in self.box if not isprod(v)}, key=repr)
        seen = 0

        def ok(env):
            for key, (lo, hi) in self.cons.items():
                t = sum(k * val(v, env) for v, k in key)
                if not lo <= t <= hi:
                    return False
            for v, (lo, hi) in self.box.items():
                if not lo <= val(v, env) <= hi:
                    return False
            return True

        def val(v, env):
            if isprod(v):
                return val(v[1], env) * val(v[2], env)
            return env[v]

        def fill(k, env, pick):
            env = dict(env)
            for n, v in enumerate(live):
                lo, hi = self.box[v]
                c = [lo, hi, (lo + hi) // 2, lo + (hi - lo) // 3, min(max(1, lo), hi),
                     min(max(0, lo), hi), min(lo + 1, hi), max(hi - 1, lo)]
                env[v] = c[pick(n) % len(c)]
            return env
        N = len(live)
        combos = []
        import itertools
        if N <= 3:
            combos = itertools.product(range(8), repeat=N)
        else:
            combos = [tuple((s * (n + 1) + n) % 8 for n in range(N)) for s in range(64)]
        for cb in combos:
            env = fill(0, {}, lambda n: cb[n])
            if not ok(env):
                env = self.repair(env, live, val)
                if env is None or not ok(env):
                    continue
            out = {}
            for b in base:
                f = self.sub.get(b, AV(b))
                f = self.norm(f)
                try:
                    out[b] = f.c + sum(k * val(v, env) for v, k in f.m)
                except KeyError:
                    out = None
                    break
            if out is not None:
                seen += 1
                yield out
                if seen > 200:
                    return

    def repair(self, env, live, val):
        env = dict(env)
        for _ in range(8):
            bad = False
            for key, (lo, hi) in self.cons.items():
                t = sum(k * val(v, env) for v, k in key)
                if lo <= t <= hi:
                    continue
                bad = True
                need = (lo - t) if t < lo else (hi - t)
                for v, k in key:
                    if isprod(v) or v not in self.box:
                        continue
                    d = need // k if need * k > 0 or need % k == 0 else -((-need) // k)
                    if k * d < need and need > 0:
                        d += 1 if k > 0 else -1
                    if k * d > need and need < 0:
                        d += -1 if k > 0 else 1
                    b = self.box[v]
                    nv = min(max(env[v] + d, b[0]), b[1])
                    if nv != env[v]:
                        env[v] = nv
                        break
            if not bad:
                return env
        return env


def primitive(m):
    from math import gcd
    g = 0
    for _, k in m:
        g = gcd(g, abs(k))
    s = 1 if m[0][1] > 0 else -1
    return tuple((v, k // (g * s)) for v, k in m), s, g


# ---------------------------------------------------------------------------

class Abs:
    """value of terms in one region"""

    def __init__(self, reg):
        self.r = reg
        self.memo = {}

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.r.norm(self.ev1(t))
            self.memo[t] = r
        return r

    def wrap(self, a, w):
        lo, hi = self.r.rng(a)
        M = 1 << w
        h = M >> 1
        k0, k1 = (lo + h) // M, (hi + h) // M
        if k0 == k1:
            return a.plus(-k0 * M)
        if k1 - k0 <= 3:
            raise Split([[(a, k * M - h, k * M + h - 1)] for k in range(k0, k1 + 1)])
        # a = M q + s with s in [-h, h)
        return self.mod(a.plus(h), M).plus(-h)

    def unsigned(self, t):
        a = self.ev(t)
        w = width(t)
        lo, hi = self.r.rng(a)
        if lo >= 0:
            return a
        if hi < 0:
            return a.plus(1 << w)
        raise Split([[(a, None, -1)], [(a, 0, None)]])

    def floor(self, a, M):
        """floor(a / M), M > 0"""
        if M == 1:
            return a
        g, h = {}, {}
        for v, k in a.m:
            q = k // M
            # keep residues small in magnitude
            if k % M == 0:
                g[v] = q
            else:
                h[v] = k
        ha = mkaff(a.c % M, h)
        ga = mkaff(a.c // M, g)
        lo, hi = self.r.rng(ha)
        if lo // M == hi // M:
            return ga.plus(lo // M)
        k0, k1 = lo // M, hi // M
        if k1 - k0 <= 2:
            raise Split([[(ha, k * M, k * M + M - 1)] for k in range(k0, k1 + 1)])
        # reduce large coefficients
        if any(abs(k) > M for _, k in ha.m):
            g2 = dict(g)
            h2 = {}
            for v, k in h.items():
                q = k // M
                g2[v] = g2.get(v, 0) + q
                if k - q * M:
                    h2[v] = k - q * M
            h2a = mkaff(a.c % M, h2)
            lo, hi = self.r.rng(h2a)
            if lo // M == hi // M:
                return mkaff(a.c // M + lo // M, g2)
        raise Decompose(ha, M)

    def mod(self, a, M):
        return a.add(self.floor(a, M).scale(M), -1)

    def split_at(self, a, n):
        """a < n ?"""
        lo, hi = self.r.rng(a)
        if hi < n:
            return True
        if lo >= n:
            return False
        raise Split([[(a, None, n - 1)], [(a, n, None)]])

    def truth(self, t):
        a = self.ev(t)
        if a.const():
            return a.c & 1
        lo, hi = self.r.rng(a)
        raise Split([[(a, v, v)] for v in range(lo, hi + 1)])

    def ev1(self, t):
        op, w = t[0], t[1]
        r = self.r
        if op == 'c':
            return Aff(t[2])
        if op in ('v', 'fn'):
            if t not in r.box and t not in r.sub:
                r.box[t] = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            return AV(t)
        if op == 'add' or op == 'sub':
            return self.wrap(self.ev(t[2]).add(self.ev(t[3]), 1 if op == 'add' else -1), w)
        if op == 'mul':
            a = self.ev(t[2])
            if a.const() and a.c == 0:
                return a
            b = self.ev(t[3])
            return self.wrap(r.product(a, b), w)
        if op == 'sext':
            return self.ev(t[2])
        if op == 'zext':
            return self.unsigned(t[2])
        if op == 'ex':
            lo = t[3]
            a = self.ev(t[2])
            if lo + w == width(t[2]):
                return self.floor(a, 1 << lo)
            if lo:
                # shift out the low bits, then keep w
                f = self.floor(a, 1 << lo)
            else:
                f = a
            return self.wrap(f, w)
        if op == 'cat':
            p = 0
            tot = Aff(0)
            for x in t[2:-1]:
                tot = tot.add(self.unsigned(x).scale(1 << p))
                p += width(x)
            return tot.add(self.ev(t[-1]).scale(1 << p))
        if op == 'shl':
            k = self.ev(t[3])
            if not k.const():
                raise Unknown('variable shift')
            return self.wrap(self.ev(t[2]).scale(1 << k.c), w)
        if op in ('ashr', 'lshr'):
            k = self.ev(t[3])
            if not k.const():
                raise Unknown('variable shift')
            a = self.ev(t[2]) if op == 'ashr' else self.unsigned(t[2])
            return self.floor(a, 1 << k.c)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            d = self.ev(t[3])
            if not d.const() or d.c == 0:
                raise Unknown('variable divisor')
            if op[0] == 'u':
                a, dc = self.unsigned(t[2]), d.c % (1 << w)
                q = self.floor(a, dc)
            else:
                a, dc = self.ev(t[2]), d.c
                neg = self.split_at(a, 0)
                q = self.floor(a.scale(-1) if neg else a, abs(dc))
                if neg != (dc < 0):
                    q = q.scale(-1)
                if op == 'sdiv':
                    q = self.wrap(q, w)
            if op in ('sdiv', 'udiv'):
                return q
            return a.add(q.scale(dc), -1)
        if op == 'sel':
            return self.ev(t[3]) if self.truth(t[2]) else self.ev(t[4])
        if op == 'cmp':
            return self.compare(t)
        if op in ('and', 'or', 'xor'):
            return self.bits(t)
        if op in ('smin', 'smax'):
            a, b = self.ev(t[2]), self.ev(t[3])
            lt = self.split_at(a.add(b, -1), 0)
            return (a if lt else b) if op == 'smin' else (b if lt else a)
        if op in ('umin', 'umax'):
            a, b = self.unsigned(t[2]), self.unsigned(t[3])
            lt = self.split_at(a.add(b, -1), 0)
            r = (a if lt else b) if op == 'umin' else (b if lt else a)
            return self.wrap(r, w)
        if op in ('sadds', 'ssubs'):
            s = self.ev(t[2]).add(self.ev(t[3]), 1 if op == 'sadds' else -1)
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if self.split_at(s, lo):
                return Aff(lo)
            if not self.split_at(s, hi + 1):
                return Aff(hi)
            return s
        if op in ('uadds', 'usubs'):
            s = self.unsigned(t[2]).add(self.unsigned(t[3]), 1 if op == 'uadds' else -1)
            hi = (1 << w) - 1
            if self.split_at(s, 0):
                return Aff(0)
            if not self.split_at(s, hi + 1):
                return Aff(-1)
            return self.wrap(s, w)
        raise Unknown('operation %s' % op)

    def compare(self, t):
        pred, x, y = t[2], t[3], t[4]
        if pred in ('eq', 'ne'):
            d = self.ev(x).add(self.ev(y), -1)
            d = self.r.norm(d)
            lo, hi = self.r.rng(d)
            if lo > 0 or hi < 0:
                eq = False
            elif lo == hi == 0:
                eq = True
            else:
                eq = None
                if len(d.m) == 1 and d.c % abs(d.m[0][1]):
                    eq = False
                if eq is None:
                    raise Split([[(d, 0, 0)], [(d, None, -1)], [(d, 1, None)]])
            return Aff(-1 if eq == (pred == 'eq') else 0)
        if pred[0] == 'u':
            a, b = self.unsigned(x), self.unsigned(y)
        else:
            a, b = self.ev(x), self.ev(y)
        p = pred[1:]
        d = a.add(b, -1)
        if p == 'lt':
            v = self.split_at(d, 0)
        elif p == 'ge':
            v = not self.split_at(d, 0)
        elif p == 'le':
            v = self.split_at(d, 1)
        else:
            v = not self.split_at(d, 1)
        return Aff(-1 if v else 0)

    def bits(self, t):
        op, w = t[0], t[1]
        x, y = t[2], t[3]
        if is_c(x):
            x, y = y, x
        # constants (including masks that are constant in this region) first
        try:
            b = self.ev(y)
        except (Split, Decompose, Unknown) as e:
            if is_c(y):
                raise
            try:
                a = self.ev(x)
            except (Split, Decompose, Unknown):
                # an operand that may become a constant decides first
                raise e
            if a.const():
                x, y, b = y, x, a
            else:
                raise
        if not b.const():
            if op == 'and' or op == 'or':
                a = self.ev(x)
            else:
                a = self.ev(x)
            if a.const():
                x, y, b = y, x, a
            elif a == b:
                return a if op != 'xor' else Aff(0)
            else:
                return self.disjoint(op, a, b, w)
        k = b.c
        if op == 'and':
            if k == 0:
                return Aff(0)
            if k == -1:
                return self.ev(x)
            if x[0] in ('and', 'or', 'xor'):
                # bits outside the mask do not matter
                return self.ev(masked_term(x, k, w))
            return self.masked(self.ev(x), k, w)
        if op == 'or':
            if k == -1:
                return Aff(-1)
            if k == 0:
                return self.ev(x)
            a = self.ev(x)
            return a.plus(k).add(self.masked(a, k, w), -1)
        if k == 0:
            return self.ev(x)
        a = self.ev(x)
        if k == -1:
            return a.scale(-1).plus(-1)
        # a ^ k = a + k - 2 (a & k)
        return self.wrap(a.plus(k).add(self.masked(a, k, w).scale(2), -1), w)

    def masked(self, a, k, w):
        """a & k for a constant k"""
        tot = Aff(0)
        u = k & ((1 << w) - 1)
        pos = 0
        while u >> pos:
            while not (u >> pos) & 1:
                pos += 1
            hi = pos
            while (u >> hi) & 1:
                hi += 1
            if hi == w:
                # includes the sign: signed floor
                tot = tot.add(self.floor(a, 1 << pos).scale(1 << pos))
            else:
                m = self.mod(a, 1 << hi)
                if pos:
                    m = m.add(self.mod(a, 1 << pos), -1)
                tot = tot.add(m)
            pos = hi
        return tot

    def disjoint(self, op, a, b, w):
        """bitwise operation of two non-constant values that can be decided:
        one is a multiple of 2^k and the other lies in [0, 2^k)"""
        for p, q in ((a, b), (b, a)):
            lo, hi = self.r.rng(p)
            if lo < 0:
                continue
            k = hi.bit_length()
            if all(c % (1 << k) == 0 for c in [q.c] + [c for _, c in q.m]):
                return Aff(0) if op == 'and' else a.add(b)
        # the values of one operand are few: split on it
        for p in (a, b):
            lo, hi = self.r.rng(p)
            if hi - lo <= 3:
                raise Split([[(p, v, v)] for v in range(lo, hi + 1)])
        raise Unknown('bitwise %s of two variables' % op)


def masked_term(x, k, w):
    parts, pos = [], 0
    while pos < w:
        hi = pos
        one = (k >> pos) & 1
        while hi < w and (k >> hi) & 1 == one:
            hi += 1
        parts.append(ex(x, pos, hi) if one else C(0, hi - pos))
        pos = hi
    return cat(parts)


def conc(t, env, memo=None):
    """exact value of a term at a point"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    op, w = t[0], t[1]
    if op == 'c':
        r = t[2]
    elif op in ('v', 'fn'):
        r = env.get(t, 0)
    elif op == 'ex':
        r = sgn(conc(t[2], env, memo) >> t[3], w)
    elif op == 'cat':
        r, p = 0, 0
        for x in t[2:]:
            r |= (conc(x, env, memo) & ((1 << width(x)) - 1)) << p
            p += width(x)
        r = sgn(r, w)
    elif op == 'sext':
        r = conc(t[2], env, memo)
    elif op == 'zext':
        r = conc(t[2], env, memo) & ((1 << width(t[2])) - 1)
    elif op == 'sel':
        r = conc(t[3], env, memo) if conc(t[2], env, memo) & 1 else conc(t[4], env, memo)
    elif op == 'cmp':
        from lane import cmp
        W = width(t[3])
        r = cmp(t[2], C(conc(t[3], env, memo), W), C(conc(t[4], env, memo), W))[2]
    else:
        from lane import fold
        v = fold(op, w, C(conc(t[2], env, memo), w), C(conc(t[3], env, memo), w))
        if v is None:
            raise Unknown('undefined %s' % op)
        r = v[2]
    memo[t] = r
    return r


CLOCK = {'spent': 0.0, 'total': 420.0, 'each': 60.0}


def decide(cond, pre=None, limit=LIMIT):
    """-> ('true', n regions) | ('false', witness, n) | ('unknown', why, n)"""
    t0 = time.time()
    try:
        return _decide(cond, pre, limit, t0 + min(CLOCK['each'], max(1.0, CLOCK['total'] - CLOCK['spent'])))
    finally:
        CLOCK['spent'] += time.time() - t0


def _decide(cond, pre, limit, end):
    base = sorted(variables(cond) | (variables(pre) if pre else set()), key=repr)
    r0 = Region()
    for v in base:
        w = width(v)
        r0.box[v] = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    work = [r0]
    n = 0
    steps = 0
    unknown = None
    while work:
        reg = work.pop()
        steps += 1
        if steps > limit or not steps % 16 and time.time() > end:
            return ('unknown', 'too many regions', n)
        ab = Abs(reg)
        try:
            if pre is not None and not ab.truth(pre):
                continue
            if ab.truth(cond):
                n += 1
                continue
            # false in the whole region: needs a point to count
            hit = None
            hit = probe(reg, base, cond, pre) or special(base, cond, pre)
            if hit is None:
                unknown = unknown or 'no point found in a failing region'
                n += 1
                continue
            return ('false', hit, n)
        except Split as s:
            for case in s.cases:
                q = reg
                for a, lo, hi in case:
                    q = q.assume(a, lo, hi)
                    if q is None:
                        break
                if q is not None:
                    work.append(q)
        except Decompose as d:
            try:
                q = reg.decompose(d.aff, d.mod)
            except Unknown as u:
                q = None
                unknown = unknown or str(u)
                n += 1
                hit = probe(reg, base, cond, pre)
                if hit:
                    return ('false', hit, n)
            if q is not None:
                work.append(q)
        except Unknown as u:
            unknown = unknown or str(u)
            n += 1
            hit = probe(reg, base, cond, pre)
            if hit:
                return ('false', hit, n)
    if unknown:
        return ('unknown', unknown, n)
    return ('true', n)


def probe(reg, base, cond, pre):
    """a region the domain cannot decide: is some corner of it a violation?"""
    try:
        for env in reg.points(base):
            if (pre is None or conc(pre, env) & 1) and not conc(cond, env) & 1:
                return env
    except Unknown:
        pass
    return None


def special(base, cond, pre):
    """points with simple bit patterns: products of powers of two, extremes"""
    import itertools
    if len(base) > 2:
        return None
    cs = []
    for v in base:
        w = width(v)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        c = []
        for k in range(w):
            for s in (1, -1, 3, -3):
                for d in (0, 1, -1):
                    x = s * (1 << k) + d
                    if lo <= x <= hi and x not in c:
                        c.append(x)
        cs.append(c if len(base) == 1 else c[::1] if w <= 16 else c[::2] + [lo, hi])
    try:
        for n, p in enumerate(itertools.product(*cs)):
            env = dict(zip(base, p))
            if (pre is None or conc(pre, env) & 1) and not conc(cond, env) & 1:
                return env
            if n > 60000:
                break
    except Unknown:
        pass
    return None

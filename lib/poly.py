"""Normal form of ring terms: polynomials over atoms modulo 2^w."""
from lane import _key, is_c, C, V, B, mk, rebuild, width, show, sext, zext, ex

RING = {'add', 'sub', 'mul'}


class Norm:
    def __init__(self):
        self.memo = {}
        self.tmemo = {}

    def poly(self, t):
        """{monomial: coefficient}, monomial = sorted tuple of atoms"""
        if t in self.memo:
            return self.memo[t]
        w = width(t)
        M = (1 << w) - 1
        op = t[0]
        if op == 'c':
            r = {(): t[2] & M} if t[2] & M else {}
        elif op in ('add', 'sub'):
            a, b = self.poly(t[2]), self.poly(t[3])
            r = dict(a)
            s = 1 if op == 'add' else -1
            for k, v in b.items():
                x = (r.get(k, 0) + s * v) & M
                if x:
                    r[k] = x
                else:
                    r.pop(k, None)
        elif op == 'mul':
            a, b = self.poly(t[2]), self.poly(t[3])
            r = {}
            for k, v in a.items():
                for q, u in b.items():
                    m = tuple(sorted(k + q, key=_key))
                    x = (r.get(m, 0) + u * v) & M
                    if x:
                        r[m] = x
                    else:
                        r.pop(m, None)
        elif op == 'shl' and is_c(t[3]):
            r = {}
            for k, v in self.poly(t[2]).items():
                x = (v << t[3][2]) & M
                if x:
                    r[k] = x
        elif op == 'xor' and is_c(t[3]) and t[3][2] == -1 or op == 'xor' and is_c(t[2]) and t[2][2] == -1:
            o = t[2] if is_c(t[3]) else t[3]          # ~x = -x - 1
            r = {k: (-v) & M for k, v in self.poly(o).items()}
            x = (r.get((), 0) - 1) & M
            if x:
                r[()] = x
            else:
                r.pop((), None)
        elif op == 'ex' and t[3] == 0 and t[2][0] in ('add', 'sub', 'mul', 'shl'):
            # truncation is a ring homomorphism
            r = {}
            for k, v in self.poly(t[2]).items():
                v &= M
                if not v:
                    continue
                p = {(): v}
                for a in k:
                    q = self.poly(ex(a, 0, w))
                    n = {}
                    for k1, v1 in p.items():
                        for k2, v2 in q.items():
                            m = tuple(sorted(k1 + k2, key=_key))
                            n[m] = (n.get(m, 0) + v1 * v2) & M
                    p = {k1: v1 for k1, v1 in n.items() if v1}
                for k1, v1 in p.items():
                    x = (r.get(k1, 0) + v1) & M
                    if x:
                        r[k1] = x
                    else:
                        r.pop(k1, None)
        elif op == 'xor' and w > 1 and any(is_c(z) and z[2] == -(1 << (w - 1)) for z in t[2:4]):
            o = t[2] if is_c(t[3]) else t[3]          # flipping the sign bit adds it
            r = dict(self.poly(o))
            x = (r.get((), 0) + (1 << (w - 1))) & M
            if x:
                r[()] = x
            else:
                r.pop((), None)
        elif op in ('sext', 'zext'):
            r = self.widen(op, w, t[2])
            if r is None:
                r = {(self.atom(t),): 1}
        else:
            r = {(self.atom(t),): 1}
        self.memo[t] = r
        return r

    def widen(self, op, w, x):
        """sext/zext of a sum that provably does not overflow its width is the
        sum of the extended terms"""
        f = width(x)
        p = self.poly(x)
        if len(p) == 1 and list(p.values()) == [1] and len(list(p)[0]) == 1:
            return None
        tl, th = (-(1 << (f - 1)), (1 << (f - 1)) - 1) if op == 'sext' else (0, (1 << f) - 1)
        for signed in (True, False):
            lo = hi = 0
            for k, v in p.items():
                if not k:
                    continue
                c = v - (1 << f) if v >> (f - 1) else v
                a, b = 1, 1
                for at in k:
                    l, h = self.span(at, signed)
                    q = (a * l, a * h, b * l, b * h)
                    a, b = min(q), max(q)
                mb = self.monomial(k)
                if mb:
                    a, b = max(a, mb[0]), min(b, mb[1])
                lo += min(c * a, c * b)
                hi += max(c * a, c * b)
            # the constant is known modulo 2^f only: pick the one that fits
            c0 = p.get((), 0)
            n = -((lo + c0 - tl) >> f)
            c0 += n << f
            if lo + c0 < tl or hi + c0 > th:
                continue
            M = (1 << w) - 1
            r = {(): c0 & M} if c0 & M else {}
            for k, v in p.items():
                if not k:
                    continue
                c = v - (1 << f) if v >> (f - 1) else v
                q = {(): c & M}
                for at in k:
                    e = self.poly(sext(at, w) if signed else zext(at, w))
                    n = {}
                    for k1, v1 in q.items():
                        for k2, v2 in e.items():
                            m = tuple(sorted(k1 + k2, key=_key))
                            n[m] = (n.get(m, 0) + v1 * v2) & M
                    q = n
                for k1, v1 in q.items():
                    y = (r.get(k1, 0) + v1) & M
                    if y:
                        r[k1] = y
                    else:
                        r.pop(k1, None)
            return r
        return None

    def monomial(self, k):
        """bounds of a product of atoms, from a precondition"""
        return None

    limits = None      # atom -> (lo, hi) signed, from a precondition

    def span(self, t, signed):
        w = width(t)
        if self.limits:
            b = self.limits(t, signed)
            if b:
                return b
        if t[0] == 'zext':
            return self.span(t[2], False)
        if t[0] == 'sext' and signed:
            return self.span(t[2], True)
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)

    def atom(self, t):
        """a non-ring term with canonical arguments"""
        if t in self.tmemo:
            return self.tmemo[t]
        if t[0] in ('v', 'c'):
            r = t
        else:
            r = rebuild(t[0], t[1], [self.term(x) if isinstance(x, tuple) and len(x) > 2 and
                                     isinstance(x[0], str) else x for x in t[2:]])
        self.tmemo[t] = r
        return r

    def term(self, t):
        """canonical term"""
        p = self.poly(t)
        w = width(t)
        if not p:
            return C(0, w)
        if len(p) == 1:
            (k, v), = p.items()
            if not k:
                return C(v, w)
            if len(k) == 1 and v == 1:
                return k[0]
        out = None
        for k, v in sorted(p.items(), key=lambda kv: [_key(a) for a in kv[0]]):
            m = None
            for a in k:
                m = a if m is None else mk('mul', w, m, a)
            if m is None:
                m = C(v, w)
            elif v != 1:
                m = mk('mul', w, C(v, w), m)
            out = m if out is None else mk('add', w, out, m)
        return out

    def equal(self, a, b):
        return self.poly(a) == self.poly(b)


def _srdhm(w, a, b):
    lo = -(1 << (w - 1))
    return -lo - 1 if a == b == lo else (a * b + (1 << (w - 2))) >> (w - 1)


def _rdiv(w, a, e):
    h = (1 << e) >> 1
    return (a + h) >> e if a >= 0 else -((-a + h) >> e)


FN = {'srdhm': _srdhm, 'rdiv': _rdiv}


def peval(t, env, memo=None):
    """concrete value (signed) of a term, for witnesses"""
    from lane import sgn, fold
    memo = {} if memo is None else memo
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        if x[0] == 'c':
            memo[x] = x[2]
            st.pop()
            continue
        if x[0] == 'v':
            memo[x] = sgn(env(x), x[1])
            st.pop()
            continue
        sub = [y for y in x[2:] if isinstance(y, tuple) and len(y) > 2 and isinstance(y[0], str)]
        todo = [y for y in sub if y not in memo]
        if todo:
            st += todo
            continue
        a = [C(memo[y], y[1]) if isinstance(y, tuple) and len(y) > 2 and isinstance(y[0], str) else y
             for y in x[2:]]
        if x[0] == 'fn':
            f = FN.get(x[2])
            if f is None:
                raise ValueError('uninterpreted %s' % (x[2],))
            memo[x] = sgn(f(x[1], *[y[2] for y in a[1:]]), x[1])
            st.pop()
            continue
        r = rebuild(x[0], x[1], a)
        if r[0] != 'c':
            raise ValueError('not closed: %s' % (r,))
        memo[x] = r[2]
        st.pop()
    return memo[t]

"""Value numbering of loop-free IR down to scalar lanes.

Every integer value is a term: a hash-consed tuple (op, width, args...).
Vectors are lists of lane terms, so that a SIMD function becomes one scalar
term per lane over the scalar lanes of its inputs, whatever intrinsics,
shuffles or reinterpretations it uses.  Memory is byte-granular, per base
object and symbolic offset.

Terms: ('c',w,n) constant (signed)   ('v',w,name) variable
  add sub mul and or xor shl lshr ashr sdiv udiv srem urem
  sext zext (w, t)   ex (w, t, lo)  bits [lo, lo+w) of t
  cat (w, lowest..highest)   sel (w, c, a, b)   cmp (1, pred, a, b)
  smin smax umin umax sadds uadds ssubs usubs
  fn (w, name, args...) uninterpreted
"""
import hashlib
import functools
import re

from ir import sccs, _tup


class Unsupported(Exception):
    pass


def width(t):
    return t[1]


def sgn(n, w):
    n &= (1 << w) - 1
    return n - (1 << w) if n >> (w - 1) else n


def C(n, w):
    return ('c', w, sgn(n, w))


def V(name, w):
    return ('v', w, name)


class T(tuple):
    """an interned compound term; the hash and the ordering key are computed
    once, so shared subterms are never walked twice"""

    def __hash__(self):
        try:
            return self.h
        except AttributeError:
            self.h = tuple.__hash__(self)
            return self.h

    def __eq__(self, o):
        return self is o or tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self == o


_cons = {}


def mk(*t):
    t = T(t)
    return _cons.setdefault(t, t)


def is_c(t):
    return t[0] == 'c'


TRUE = C(1, 1)
FALSE = C(0, 1)
COMM = {'add', 'mul', 'and', 'or', 'xor', 'smin', 'smax', 'umin', 'umax', 'sadds', 'uadds'}


def _key(t):
    """a total order on terms that does not depend on the process"""
    if not isinstance(t, T):
        return repr(t)
    try:
        return t.k
    except AttributeError:
        s = '(' + ', '.join(_key(x) for x in t) + ')'
        if len(s) > 300:
            s = s[:40] + hashlib.blake2b(s.encode()).hexdigest()[:40]
        t.k = s
        return s


def fold(op, w, a, b):
    x, y = a[2], b[2]
    ux, uy = x & ((1 << w) - 1), y & ((1 << w) - 1)
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    um = (1 << w) - 1
    if op == 'add': return C(x + y, w)
    if op == 'sub': return C(x - y, w)
    if op == 'mul': return C(x * y, w)
    if op == 'and': return C(x & y, w)
    if op == 'or': return C(x | y, w)
    if op == 'xor': return C(x ^ y, w)
    if op == 'shl': return C(x << uy, w) if uy < w else None
    if op == 'lshr': return C(ux >> uy, w) if uy < w else None
    if op == 'ashr': return C(x >> uy, w) if uy < w else None
    if op == 'smin': return C(min(x, y), w)
    if op == 'smax': return C(max(x, y), w)
    if op == 'umin': return C(min(ux, uy), w)
    if op == 'umax': return C(max(ux, uy), w)
    if op == 'sadds': return C(max(lo, min(hi, x + y)), w)
    if op == 'ssubs': return C(max(lo, min(hi, x - y)), w)
    if op == 'uadds': return C(min(um, ux + uy), w)
    if op == 'usubs': return C(max(0, ux - uy), w)
    if op == 'sdiv' and y: return C(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), w)
    if op == 'udiv' and uy: return C(ux // uy, w)
    if op == 'srem' and y:
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return C(x - q * y, w)
    if op == 'urem' and uy: return C(ux % uy, w)
    return None


def B(op, a, b):
    """binary operation"""
    w = width(a)
    if width(b) != w:
        raise Unsupported('width mismatch %s %d %d' % (op, w, width(b)))
    if is_c(a) and is_c(b):
        r = fold(op, w, a, b)
        if r is not None:
            return r
    if op in COMM and _key(b) < _key(a):
        a, b = b, a
    k, o = (a, b) if is_c(a) else (b, a) if is_c(b) else (None, None)
    if op in ('add', 'or', 'xor') and k and k[2] == 0:
        return o
    if op == 'sub' and is_c(b) and b[2] == 0:
        return a
    if op == 'sub' and is_c(b):
        return B('add', a, C(-b[2], w))
    if op in ('shl', 'lshr', 'ashr') and is_c(b):
        if b[2] == 0:
            return a
        if not 0 < b[2] < w:
            raise Unsupported('shift by %d of %d bits' % (b[2], w))
        if op == 'shl' and a[0] == 'cat' or op == 'shl' and a[0] == 'shl':
            pass
        if op == 'shl':
            if a[0] in ('cat', 'zext', 'sext'):
                lo = ex(a, 0, w - b[2])
                if lo[0] != 'ex':
                    return cat([C(0, b[2]), lo])
        if op == 'lshr':
            hi = ex(a, b[2], w)
            if hi[0] != 'ex':
                return zext(hi, w)
        if op == 'ashr':
            if a[0] == 'cat':
                hi = ex(a, b[2], w)
                if hi[0] != 'ex':
                    return sext(hi, w)
            # sign masks distribute over bitwise operations
            if b[2] == w - 1 and a[0] in ('and', 'or', 'xor'):
                return B(a[0], B('ashr', a[2], b), B('ashr', a[3], b))
    if op == 'and':
        if k and k[2] == 0:
            return C(0, w)
        if k and k[2] == -1:
            return o
        if a == b:
            return a
    if op == 'or':
        if k and k[2] == -1:
            return C(-1, w)
        if a == b:
            return a
    if op == 'xor':
        if a == b:
            return C(0, w)
        if k and k[2] == -1 and o[0] == 'xor' and is_c(o[2]) and o[2][2] == -1:
            return o[3]
        if k and k[2] == -1 and o[0] == 'xor' and is_c(o[3]) and o[3][2] == -1:
            return o[2]
        if w == 1 and k and k[2] & 1 and o[0] == 'cmp':
            return cmp(NEG[o[2]], o[3], o[4])
        if k and k[2] == -1 and o[0] == 'sext' and width(o[2]) == 1:
            return sext(B('xor', o[2], C(1, 1)), w)
        if k and k[2] == -1 and o[0] == 'cat':
            return cat([B('xor', p, C(-1, width(p))) for p in o[2:]])
    if op in ('and', 'or', 'xor') and (a[0] == 'cat' or b[0] == 'cat') and w > 1:
        cuts = {0, w}
        for t in (a, b):
            if t[0] == 'cat':
                p = 0
                for x in t[2:]:
                    p += width(x)
                    cuts.add(p)
        cuts = sorted(cuts)
        if len(cuts) > 2:
            return cat([B(op, ex(a, lo, hi), ex(b, lo, hi)) for lo, hi in zip(cuts, cuts[1:])])
    if op == 'mul' and k and k[2] == 1:
        return o
    if op == 'mul' and k and k[2] == 0:
        return C(0, w)
    if op == 'add' and k and o[0] == 'add':
        if is_c(o[2]):
            return B('add', C(k[2] + o[2][2], w), o[3])
        if is_c(o[3]):
            return B('add', C(k[2] + o[3][2], w), o[2])
    return mk(op, w, a, b)


def ex(t, lo, hi):
    """bits [lo, hi) of t"""
    w = width(t)
    n = hi - lo
    if lo == 0 and hi == w:
        return t
    op = t[0]
    if op == 'c':
        return C((t[2] & ((1 << w) - 1)) >> lo, n)
    if op == 'ex':
        return ex(t[2], t[3] + lo, t[3] + hi)
    if op == 'cat':
        out = []
        p = 0
        for x in t[2:]:
            a, b = max(lo, p), min(hi, p + width(x))
            if a < b:
                out.append(ex(x, a - p, b - p))
            p += width(x)
        return cat(out)
    if op in ('zext', 'sext'):
        f = width(t[2])
        if hi <= f:
            return ex(t[2], lo, hi)
        if op == 'zext':
            if lo >= f:
                return C(0, n)
            return zext(ex(t[2], lo, f), n)
        if f == 1:
            return sext(t[2], n)
        if lo >= f - 1:
            return sext(ex(t[2], f - 1, f), n)
        return sext(ex(t[2], lo, f), n)
    if op in ('and', 'or', 'xor'):
        return B(op, ex(t[2], lo, hi), ex(t[3], lo, hi))
    if op == 'sel':
        return sel(t[2], ex(t[3], lo, hi), ex(t[4], lo, hi))
    if op == 'shl' and is_c(t[3]):
        k = t[3][2]
        if lo >= k:
            return ex(t[2], lo - k, hi - k)
        if hi <= k:
            return C(0, n)
    if op == 'lshr' and is_c(t[3]):
        k = t[3][2]
        if hi + k <= w:
            return ex(t[2], lo + k, hi + k)
    if lo and op in ('smin', 'smax', 'umin') and lo >= ubits(t):
        return C(0, n)
    return mk('ex', n, t, lo)


def ubits(t):
    """an upper bound of the number of significant bits of a non-negative
    clamped value (the width when nothing is known)"""
    w = width(t)
    op = t[0]
    if op == 'c':
        return t[2].bit_length() if t[2] >= 0 else w
    if op == 'zext':
        return ubits(t[2])
    if op == 'umin':
        return min(ubits(t[2]), ubits(t[3]))
    if op == 'smax':
        if is_c(t[2]) and t[2][2] >= 0 or is_c(t[3]) and t[3][2] >= 0:
            k, x = (t[2], t[3]) if is_c(t[2]) else (t[3], t[2])
            if x[0] == 'smin':
                for a in x[2:4]:
                    if is_c(a) and a[2] >= 0:
                        return max(k[2].bit_length(), a[2].bit_length())
            return w - 1
        return w
    if op == 'smin':
        for k, x in ((t[2], t[3]), (t[3], t[2])):
            if is_c(k) and k[2] >= 0 and ubits(x) < w:
                return min(k[2].bit_length(), ubits(x))
    return w


def cat(parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            qs = list(p[2:])
        else:
            qs = [p]
        for q in qs:
            if out:
                a = out[-1]
                m = _merge(a, q)
                if m is not None:
                    out[-1] = m
                    continue
            out.append(q)
    if len(out) == 1:
        return out[0]
    # cat of selects with one condition
    if all(x[0] == 'sel' for x in out) and len({x[2] for x in out}) == 1:
        return sel(out[0][2], cat([x[3] for x in out]), cat([x[4] for x in out]))
    if all(x[0] == 'sel' or is_c(x) for x in out) and len({x[2] for x in out if x[0] == 'sel'}) == 1:
        c = [x[2] for x in out if x[0] == 'sel'][0]
        return sel(c, cat([x[3] if x[0] == 'sel' else x for x in out]),
                   cat([x[4] if x[0] == 'sel' else x for x in out]))
    w = sum(width(x) for x in out)
    if len(out) == 2 and is_c(out[1]) and out[1][2] == 0:
        return zext(out[0], w)
    return mk('cat', w, *out)


def _merge(a, b):
    """a is the lower part"""
    if is_c(a) and is_c(b):
        wa = width(a)
        return C((a[2] & ((1 << wa) - 1)) | (b[2] << wa), wa + width(b))
    sa = (a[2], a[3], a[3] + a[1]) if a[0] == 'ex' else (a, 0, width(a))
    sb = (b[2], b[3], b[3] + b[1]) if b[0] == 'ex' else (b, 0, width(b))
    if sa[0] == sb[0] and sa[2] == sb[1]:
        return ex(sa[0], sa[1], sb[2])
    if a[0] == 'sext' and b[0] == 'sext' and width(a[2]) == 1 and a[2] == b[2]:
        return sext(a[2], width(a) + width(b))
    if a[0] in ('and', 'or', 'xor') and b[0] == a[0]:
        m1, m2 = _merge(a[2], b[2]), _merge(a[3], b[3])
        if m1 is not None and m2 is not None:
            return B(a[0], m1, m2)
        m1, m2 = _merge(a[2], b[3]), _merge(a[3], b[2])
        if m1 is not None and m2 is not None:
            return B(a[0], m1, m2)
    if a[0] == 'sel' and b[0] == 'sel' and a[2] == b[2]:
        m1, m2 = _merge(a[3], b[3]), _merge(a[4], b[4])
        if m1 is not None and m2 is not None:
            return sel(a[2], m1, m2)
    # a sign-extended value completed by its sign bits
    if b[0] == 'sext' and width(b[2]) == 1 and b[2] == ex(a, width(a) - 1, width(a)):
        return sext(a, width(a) + width(b))
    return None


def sext(t, w):
    if width(t) == w:
        return t
    if is_c(t):
        return C(t[2], w)
    if t[0] == 'sext':
        return sext(t[2], w)
    if t[0] == 'zext' and width(t[2]) < width(t):
        return zext(t[2], w)
    return mk('sext', w, t)


def zext(t, w):
    if width(t) == w:
        return t
    if is_c(t):
        return C(t[2] & ((1 << width(t)) - 1), w)
    if t[0] == 'zext':
        return zext(t[2], w)
    return mk('zext', w, t)


def trunc(t, w):
    return ex(t, 0, w)


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def cmp(pred, a, b):
    w = width(a)
    if is_c(a) and is_c(b):
        x, y = a[2], b[2]
        if pred[0] == 'u':
            x &= (1 << w) - 1
            y &= (1 << w) - 1
        r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y,
             'ge': x >= y}[pred if pred in ('eq', 'ne') else pred[1:]]
        return TRUE if r else FALSE
    if a == b:
        return TRUE if pred in ('eq', 'sle', 'sge', 'ule', 'uge') else FALSE
    if is_c(a):
        a, b, pred = b, a, SWAP[pred]
    if pred in ('eq', 'ne') and is_c(b) and a[0] == 'sext' and width(a[2]) == 1:
        if b[2] == 0:
            return B('xor', a[2], C(1, 1)) if pred == 'eq' else a[2]
        if b[2] == -1:
            return a[2] if pred == 'eq' else B('xor', a[2], C(1, 1))
        return FALSE if pred == 'eq' else TRUE
    if pred in ('eq', 'ne') and is_c(b) and a[0] == 'zext':
        f = width(a[2])
        if b[2] & ((1 << w) - 1) >= 1 << f:
            return FALSE if pred == 'eq' else TRUE
        return cmp(pred, a[2], C(b[2], f))
    if pred in ('eq', 'ne') and is_c(b) and w == 1:
        hit = (b[2] & 1) == (1 if pred == 'eq' else 0)
        return a if hit else B('xor', a, C(1, 1))
    if pred == 'slt' and is_c(b) and b[2] == 0 and a[0] == 'sext' and width(a[2]) == 1:
        return a[2]
    if pred in ('eq', 'ne') and a[0] == 'cat' and w > 1:
        r = None
        p = 0
        for x in a[2:]:
            c = cmp('eq', x, ex(b, p, p + width(x)))
            r = c if r is None else B('and', r, c)
            p += width(x)
        return r if pred == 'eq' else B('xor', r, C(1, 1))
    return mk('cmp', 1, pred, a, b)


def sel(c, a, b):
    if is_c(c):
        return a if c[2] & 1 else b
    if a == b:
        return a
    if width(a) == 1 and is_c(a) and is_c(b):
        return c if a[2] & 1 else B('xor', c, C(1, 1))
    if is_c(a) and is_c(b) and a[2] == -1 and b[2] == 0:
        return sext(c, width(a))
    if is_c(a) and is_c(b) and a[2] == 1 and b[2] == 0:
        return zext(c, width(a))
    if width(a) == 1:
        if is_c(b) and not b[2] & 1:
            return B('and', c, a)
        if is_c(a) and a[2] & 1:
            return B('or', c, b)
    return mk('sel', width(a), c, a, b)


def NOT(c):
    return B('xor', c, C(1, 1))


def show(t, d=0):
    if t[0] == 'c':
        return str(t[2])
    if t[0] == 'v':
        return str(t[2]) if isinstance(t[2], str) else '.'.join(str(x) for x in t[2])
    if d > 12:
        return '...'
    a = ', '.join(show(x, d + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) and len(x) > 1
                  else str(x) for x in t[2:])
    return '%s%d(%s)' % (t[0], t[1], a)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in x[2:]:
            if isinstance(y, tuple) and y and isinstance(y[0], str) and len(y) > 2 and x[0] != 'v':
                st.append(y)
    return seen


def variables(t):
    return {x for x in subterms(t) if x[0] == 'v'}


def rename(t, f, memo=None):
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t[0] == 'v':
        r = f(t)
    elif t[0] == 'c':
        r = t
    else:
        args = [rename(x, f, memo) if isinstance(x, tuple) and len(x) > 2 and isinstance(x[0], str) else x
                for x in t[2:]]
        r = rebuild(t[0], t[1], args)
    memo[t] = r
    return r


def rebuild(op, w, a):
    if op == 'ex':
        return ex(a[0], a[1], a[1] + w)
    if op == 'cat':
        return cat(a)
    if op == 'sext':
        return sext(a[0], w)
    if op == 'zext':
        return zext(a[0], w)
    if op == 'sel':
        return sel(*a)
    if op == 'cmp':
        return cmp(*a)
    if op == 'fn':
        return mk('fn', w, *a)
    return B(op, a[0], a[1])


# ---------------------------------------------------------------------------
# types

@functools.lru_cache(maxsize=None)
def parse_type(s):
    s = s.strip()
    m = re.fullmatch(r'i(\d+)', s)
    if m:
        return ('int', int(m[1]))
    if s in ('float', 'double'):
        return ('flt', 32 if s == 'float' else 64)
    if s == 'ptr':
        return ('ptr',)
    if s == 'void':
        return ('void',)
    m = re.fullmatch(r'<(\d+) x (.*)>', s)
    if m:
        return ('vec', int(m[1]), parse_type(m[2]))
    m = re.fullmatch(r'\[(\d+) x (.*)\]', s)
    if m:
        return ('arr', int(m[1]), parse_type(m[2]))
    if s.startswith('{') and s.endswith('}'):
        return ('st', [parse_type(x) for x in split_top(s[1:-1])])
    return ('other', s)


def split_top(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '{[<(':
            d += 1
        if ch in '}])>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def tbits(t):
    if t[0] in ('int', 'flt'):
        return t[1]
    if t[0] in ('vec', 'arr'):
        return t[1] * tbits(t[2])
    if t[0] == 'st':
        return sum(tbits(x) for x in t[1])
    raise Unsupported('size of %s' % (t,))


def flat(v):
    """value -> one wide term"""
    if isinstance(v, list):
        return cat([flat(x) for x in v])
    if isinstance(v, Ptr):
        raise Unsupported('pointer as integer')
    return v


def unflat(t, ty):
    if ty[0] in ('int', 'flt'):
        return t
    if ty[0] in ('vec', 'arr'):
        n = tbits(ty[2])
        return [unflat(ex(t, k * n, (k + 1) * n), ty[2]) for k in range(ty[1])]
    if ty[0] == 'st':
        out, p = [], 0
        for x in ty[1]:
            out.append(unflat(ex(t, p, p + tbits(x)), x))
            p += tbits(x)
        return out
    raise Unsupported('reinterpretation as %s' % (ty,))


# ---------------------------------------------------------------------------
# pointers: base object + linear offset

class Ptr:
    __slots__ = ('base', 'sym', 'off')

    def __init__(self, base, sym=(), off=0):
        self.base = base
        self.sym = sym      # frozen linear form over terms
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.base, self.sym, self.off) == (o.base, o.sym, o.off)

    def __hash__(self):
        return hash((self.base, self.sym, self.off))

    def __repr__(self):
        return 'Ptr(%s%s%+d)' % (self.base, ''.join('+%d*%s' % (c, show(t)) for t, c in self.sym), self.off)

    def add(self, sym, off):
        d = dict(self.sym)
        for t, c in sym:
            d[t] = d.get(t, 0) + c
            if d[t] == 0:
                del d[t]
        return Ptr(self.base, tuple(sorted(d.items(), key=repr)), self.off + off)


def linear(t):
    """linear form {term: coef} + const of an index term, looking through
    widening (assumption: indices do not overflow)"""
    if is_c(t):
        return {}, t[2]
    op = t[0]
    if op in ('sext', 'zext'):
        return linear(t[2])
    if op == 'add' or op == 'sub':
        a, x = linear(t[2])
        b, y = linear(t[3])
        s = 1 if op == 'add' else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
            if r[k] == 0:
                del r[k]
        return r, x + s * y
    if op == 'mul':
        for k, o in ((t[2], t[3]), (t[3], t[2])):
            if is_c(k):
                a, x = linear(o)
                return {q: v * k[2] for q, v in a.items()}, x * k[2]
        # products of linear forms: distribute
        a, x = linear(t[2])
        b, y = linear(t[3])
        r, c = {}, x * y
        for q, v in a.items():
            if y:
                r[q] = r.get(q, 0) + v * y
        for q, v in b.items():
            if x:
                r[q] = r.get(q, 0) + v * x
        for q, v in a.items():
            for p, u in b.items():
                k = mk('prod', 0, *sorted((q, p), key=_key))
                r[k] = r.get(k, 0) + v * u
        return {k: v for k, v in r.items() if v}, c
    if op == 'shl' and is_c(t[3]):
        a, x = linear(t[2])
        return {q: v << t[3][2] for q, v in a.items()}, x << t[3][2]
    if op == 'ex' and t[3] == 0 and t[1] >= 32 and t[2][0] in ('add', 'sub', 'mul', 'shl'):
        return linear(t[2])
    if op == 'cat' and is_c(t[2]) and t[2][2] == 0 and len(t) == 4:
        a, x = linear(t[3])
        k = width(t[2])
        return {q: v << k for q, v in a.items()}, x << k
    return {t: 1}, 0


class Memory:
    """bytes: (base, sym) -> {offset: (term, byte)}"""

    def __init__(self, elt):
        self.elt = elt        # base -> element bits of initial contents
        self.w = {}
        self.log = []
        self.const = None     # initial element variable -> known contents

    def copy(self):
        m = Memory(self.elt)
        m.const = self.const
        m.w = {k: dict(v) for k, v in self.w.items()}
        m.log = self.log
        return m

    def initial(self, p, off):
        n = self.elt(p.base) if callable(self.elt) else self.elt.get(p.base, 8)
        n //= 8
        e, r = divmod(off, n)
        v = V((p.base, p.sym, e), n * 8)
        return (self.const(v) if self.const else v), r

    def load(self, p, nbytes):
        ws = self.w.get((p.base, p.sym), {})
        parts = []
        k = 0
        while k < nbytes:
            t, b = ws.get(p.off + k) or self.initial(p, p.off + k)
            n = 1
            if t[1] > 8 or n < nbytes:
                # the longest run of bytes of one term
                top = min(t[1] // 8 - b, nbytes - k)
                while n < top:
                    u = ws.get(p.off + k + n) or self.initial(p, p.off + k + n)
                    if u[0] is not t and u[0] != t or u[1] != b + n:
                        break
                    n += 1
            parts.append(t if n * 8 == t[1] else ex(t, 8 * b, 8 * (b + n)))
            k += n
        return parts[0] if len(parts) == 1 else cat(parts)

    def store(self, p, t):
        ws = self.w.setdefault((p.base, p.sym), {})
        o = p.off
        for x in (t[2:] if t[0] == 'cat' and all(x[1] % 8 == 0 for x in t[2:]) else (t,)):
            for k in range(x[1] // 8):
                ws[o] = (x, k)
                o += 1

    @staticmethod
    def join(c, a, b):
        """memory that is a if c else b"""
        m = a.copy()
        for key in set(a.w) | set(b.w):
            x, y = a.w.get(key, {}), b.w.get(key, {})
            d = {}
            p = Ptr(key[0], key[1])
            for o in set(x) | set(y):
                u = x.get(o) or a.initial(p, o)
                v = y.get(o) or b.initial(p, o)
                if u == v:
                    d[o] = u
                else:
                    d[o] = (sel(c, ex(u[0], 8 * u[1], 8 * u[1] + 8), ex(v[0], 8 * v[1], 8 * v[1] + 8)), 0)
            m.w[key] = d
        return m


# ---------------------------------------------------------------------------

class Eval:
    def __init__(self, fn, args=None, elt=None, calls=None):
        self.fn = fn
        self.val = {}
        self.ret = None
        self.assumed = 0
        self.calls = []          # opaque calls met: (name, args, memory)
        self.call_model = calls
        self.opaque = set()      # operations kept as uninterpreted functions
        self.mem0 = Memory(elt or {})
        self.args = args or [self.arg(k, a) for k, a in enumerate(fn.args)]

    def arg(self, k, a):
        ty = parse_type(a['t'])
        if ty[0] == 'ptr':
            return Ptr('arg%d' % k)
        return unflat(V(('arg%d' % k,), tbits(ty)), ty)

    # -- values ----------------------------------------------------------
    def ref(self, r):
        k = r[0]
        if k == 'c':
            return C(r[1], r[2])
        if k == 'i':
            return self.val[r[1]]
        if k == 'a':
            return self.args[r[1]]
        if k == 'n':
            return Ptr('null')
        if k == 'g':
            return Ptr(r[1])
        if k == 'cg':
            b = self.ref(r[1])
            return b.add((), r[2])
        if k == 'cv':
            return [self.ref(x) for x in r[1]]
        if k == 'z':
            return unflat_zero(parse_type(r[1]))
        if k == 'u':
            return undef(parse_type(r[1]))
        if k == 'f':
            if len(r) > 2:
                return C(r[2], r[3])
            raise Unsupported('floating constant')
        raise Unsupported('operand %r' % (r,))

    def run(self):
        fn = self.fn
        for s in sccs(fn.blocks, lambda b: b.succ):
            if len(s) > 1 or s[0] in s[0].succ:
                raise Unsupported('%s contains a loop' % fn.name)
        live = fn.live_blocks()
        order = [b for b in fn.rpo() if b in live]
        cond = {fn.blocks[0]: TRUE}
        edge = {}
        mem = {fn.blocks[0]: self.mem0}
        self.rets = []
        for b in order:
            preds = [p for p in b.pred if p in live and (p, b) in edge]
            if b is not fn.blocks[0]:
                if not preds:
                    continue
                c = None
                for p in preds:
                    c = edge[(p, b)] if c is None else B('or', c, edge[(p, b)])
                cond[b] = c
                m = mem_out[preds[-1]]
                for p in preds[:-1][::-1]:
                    if mem_out[p] is not m:
                        m = Memory.join(edge[(p, b)], mem_out[p], m)
                mem[b] = m
            else:
                mem_out = {}
            self.mem = mem[b] if len(b.pred) <= 1 and not b.pred else mem[b].copy()
            self.cond = cond[b]
            for i in b.insts:
                if i.op == 'phi':
                    vs = {fn.blocks[x[1]]: x[0] for x in i.ops}
                    v = None
                    for p in preds[::-1]:
                        x = self.ref(vs[p])
                        v = x if v is None else self.select(edge[(p, b)], x, v)
                    self.val[i.id] = v
                else:
                    self.inst(i)
            mem_out[b] = self.mem
            t = b.term
            if t.op == 'br':
                ss = [fn.blocks[x] for x in t.d['succ']]
                lv = [s for s in ss if s in live]
                if len(ss) == 2 and ss[0] is not ss[1]:
                    if len(lv) == 2:
                        c = self.ref(t.ops[0])
                        self.edge_add(edge, b, ss[0], B('and', cond[b], c))
                        self.edge_add(edge, b, ss[1], B('and', cond[b], NOT(c)))
                    else:
                        self.assumed += 1
                        self.edge_add(edge, b, lv[0], cond[b])
                else:
                    self.edge_add(edge, b, ss[0], cond[b])
            elif t.op == 'switch':
                v = self.ref(t.ops[0])
                rest = TRUE
                for cv, s in t.d['cases']:
                    e = cmp('eq', v, C(cv, width(v)))
                    s = fn.blocks[s]
                    if s in live:
                        self.edge_add(edge, b, s, B('and', cond[b], e))
                    rest = B('and', rest, NOT(e))
                s = fn.blocks[t.d['def']]
                if s in live:
                    self.edge_add(edge, b, s, B('and', cond[b], rest))
            elif t.op == 'ret':
                self.rets.append((cond[b], self.ref(t.ops[0]) if t.ops else None, self.mem))
        if not self.rets:
            raise Unsupported('%s never returns' % fn.name)
        m = self.rets[-1][2]
        v = self.rets[-1][1]
        for c, rv, rm in self.rets[:-1][::-1]:
            m = Memory.join(c, rm, m)
            v = self.select(c, rv, v) if rv is not None else None
        self.mem = m
        self.ret = v
        return self

    @staticmethod
    def edge_add(edge, a, b, c):
        if is_c(c) and not c[2] & 1:
            return
        edge[(a, b)] = B('or', edge[(a, b)], c) if (a, b) in edge else c

    def select(self, c, a, b):
        if isinstance(a, list):
            if isinstance(c, list):
                return [self.select(x, y, z) for x, y, z in zip(c, a, b)]
            return [self.select(c, y, z) for y, z in zip(a, b)]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a == b:
                return a
            if is_c(c):
                return a if c[2] & 1 else b
            raise Unsupported('choice between pointers')
        return sel(c, a, b)

    def map2(self, f, a, b):
        if isinstance(a, list):
            return [self.map2(f, x, y) for x, y in zip(a, b)]
        return f(a, b)

    def map1(self, f, a):
        if isinstance(a, list):
            return [self.map1(f, x) for x in a]
        return f(a)

    def inst(self, i):
        op = i.op
        if op in ('br', 'switch', 'ret', 'unreachable', 'fence'):
            return
        if op == 'load':
            ty = parse_type(i.t)
            p = self.ref(i.ops[0])
            if ty[0] == 'ptr':
                v = self.load_ptr(p)
            else:
                v = unflat(self.load(p, (tbits(ty) + 7) // 8, tbits(ty)), ty)
            self.val[i.id] = v
            return
        if op == 'store':
            p = self.ref(i.ops[1])
            v = self.ref(i.ops[0])
            if isinstance(v, Ptr):
                self.mem.w.setdefault((p.base, p.sym), {})[('p', p.off)] = v
                return
            t = flat(v)
            if width(t) % 8:
                t = zext(t, (width(t) + 7) // 8 * 8)
            self.store(p, t, i)
            return
        if op == 'alloca':
            self.val[i.id] = Ptr('alloca%d' % i.id)
            return
        if op == 'getelementptr':
            if 'off' not in i.d:
                raise Unsupported('vector gep')
            p = self.ref(i.ops[0])
            sym, off = {}, i.d['off']
            for n, rc in enumerate(i.d.get('var', [])):
                r, c = rc
                if isinstance(r, list):
                    r = rc[0] = _tup(r)
                v = self.ref(r)
                if is_c(v):
                    off += v[2] * c
                    continue
                f, k = linear(v)
                off += k * c
                for t, v in f.items():
                    sym[t] = sym.get(t, 0) + v * c
            self.val[i.id] = p.add(sorted(sym.items(), key=repr), off) if sym else Ptr(p.base, p.sym, p.off + off)
            return
        self.val[i.id] = self.compute(i)

    def load_ptr(self, p):
        w = self.mem.w.get((p.base, p.sym), {}).get(('p', p.off))
        if w is not None:
            return w
        return Ptr('*(%s%+d)' % (p.base, p.off) if not p.sym else repr(p))

    def load(self, p, n, bits):
        g = self.fn.mod.globals.get(p.base)
        if g and g.get('const') and 'init' in g and not p.sym:
            t = const_bytes(g['init'])
            return ex(t, 8 * p.off, 8 * p.off + bits)
        t = self.mem.load(p, n)
        return t if width(t) == bits else ex(t, 0, bits)

    def store(self, p, t, i):
        self.mem.store(p, t)

    BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'}

    def compute(self, i):
        op = i.op
        ty = parse_type(i.t)
        if op in self.BIN:
            a, b = self.ref(i.ops[0]), self.ref(i.ops[1])
            return self.map2(lambda x, y: B(op, x, y), a, b)
        if op == 'icmp':
            a, b = self.ref(i.ops[0]), self.ref(i.ops[1])
            if isinstance(a, Ptr):
                if a == b:
                    return TRUE if i.d['pred'] in ('eq', 'uge', 'ule') else FALSE
                return V(('ptrcmp', i.d['pred'], repr(a), repr(b)), 1)
            return self.map2(lambda x, y: cmp(i.d['pred'], x, y), a, b)
        if op in ('sext', 'zext', 'trunc'):
            w = ty[1] if ty[0] == 'int' else ty[2][1]
            f = {'sext': sext, 'zext': zext, 'trunc': trunc}[op]
            return self.map1(lambda x: f(x, w), self.ref(i.ops[0]))
        if op == 'bitcast':
            v = self.ref(i.ops[0])
            if isinstance(v, Ptr):
                return v
            return unflat(flat(v), ty)
        if op == 'freeze':
            return self.ref(i.ops[0])
        if op == 'select':
            c, a, b = (self.ref(x) for x in i.ops)
            return self.select(c, a, b)
        if op == 'shufflevector':
            a, b = self.ref(i.ops[0]), self.ref(i.ops[1])
            n = len(a)
            u = undef(ty[2])
            return [u if k < 0 else a[k] if k < n else b[k - n] for k in i.d['mask']]
        if op == 'extractelement':
            k = self.ref(i.ops[1])
            if not is_c(k):
                raise Unsupported('variable lane')
            return self.ref(i.ops[0])[k[2]]
        if op == 'insertelement':
            v = list(self.ref(i.ops[0]))
            k = self.ref(i.ops[2])
            if not is_c(k):
                raise Unsupported('variable lane')
            v[k[2]] = self.ref(i.ops[1])
            return v
        if op == 'extractvalue':
            v = self.ref(i.ops[0])
            for k in i.d['idx']:
                v = v[k]
            return v
        if op == 'insertvalue':
            return self.insval(self.ref(i.ops[0]), i.d['idx'], self.ref(i.ops[1]))
        if op in ('ptrtoint', 'inttoptr'):
            v = self.ref(i.ops[0])
            if op == 'ptrtoint':
                b = V(('addr', v.base), ty[1])
                r = B('add', b, C(v.off, ty[1]))
                for t, c in v.sym:
                    if t[0] == 'prod':
                        raise Unsupported('address product')
                    x = sext(t, ty[1]) if width(t) < ty[1] else t
                    r = B('add', r, B('mul', x, C(c, ty[1])))
                return r
            f, k = linear(v)
            bs = [t for t in f if t[0] == 'v' and isinstance(t[2], tuple) and t[2][0] == 'addr' and f[t] == 1]
            if len(bs) == 1:
                return Ptr(bs[0][2][1]).add([(t, c) for t, c in f.items() if t is not bs[0]], k)
            raise Unsupported('integer to pointer')
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'fneg'):
            w = ty[1] if ty[0] != 'vec' else ty[2][1]
            return self.map1(lambda x: mk('fn', w, op, x), self.ref(i.ops[0]))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return self.map2(lambda x, y: mk('fn', width(x), op, x, y), self.ref(i.ops[0]), self.ref(i.ops[1]))
        if op == 'fcmp':
            return self.map2(lambda x, y: mk('fn', 1, 'fcmp', i.d['pred'], x, y), self.ref(i.ops[0]),
                             self.ref(i.ops[1]))
        if i.is_call():
            return self.call(i, ty)
        raise Unsupported('instruction %s' % op)

    def asm(self, i, ty):
        text = ' '.join(i.callee[1].split())
        if text.startswith('prfm '):
            return None
        if re.fullmatch(r'maddv\.w \$\{0:w\}, \$\{1:w\}, \$\{2:w\}', text) and i.callee[2].startswith('=f,f,f,0'):
            b, c, a = (self.ref(x) for x in i.ops[:3])
            return [B('add', x, B('mul', y, z)) for x, y, z in zip(a, b, c)]
        raise Unsupported('inline assembly')

    def insval(self, v, idx, x):
        v = list(v)
        v[idx[0]] = x if len(idx) == 1 else self.insval(v[idx[0]], idx[1:], x)
        return v

    def call(self, i, ty):
        n = i.callee_name()
        if n is None:
            if i.is_asm():
                return self.asm(i, ty)
            raise Unsupported('indirect call')
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias',
                         'llvm.invariant', 'llvm.prefetch', 'llvm.va_')):
            return None
        a = [self.ref(x) if x[0] != 'm' else None for x in i.ops]
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            if not is_c(a[2]):
                raise Unsupported('copy of variable length')
            s = self.mem.w.get((a[1].base, a[1].sym), {})
            for k in range(a[2][2]):
                if ('p', a[1].off + k) in s:
                    self.mem.w.setdefault((a[0].base, a[0].sym), {})[('p', a[0].off + k)] = s[('p', a[1].off + k)]
            if a[2][2]:
                self.store(a[0], self.load(a[1], a[2][2], 8 * a[2][2]), i)
            return None
        if n.startswith('llvm.memset'):
            if not is_c(a[2]):
                raise Unsupported('memset of variable length')
            if a[2][2]:
                self.store(a[0], cat([a[1]] * a[2][2]), i)
            return None
        if self.call_model:
            r = self.call_model(self, i, n, a)
            if r is not NotImplemented:
                return r
        r = intrinsic(self, n, a, ty)
        if r is NotImplemented:
            raise Unsupported('call of %s' % n)
        return r


def unflat_zero(ty):
    if ty[0] == 'ptr':
        return Ptr('null')
    if ty[0] in ('vec', 'arr'):
        return [unflat_zero(ty[2])] * ty[1]
    if ty[0] == 'st':
        return [unflat_zero(x) for x in ty[1]]
    return C(0, tbits(ty))


def undef(ty):
    if ty[0] == 'ptr':
        return Ptr('undef')
    if ty[0] in ('vec', 'arr'):
        return [undef(ty[2])] * ty[1]
    if ty[0] == 'st':
        return [undef(x) for x in ty[1]]
    return V('undef', tbits(ty))


def const_bytes(r):
    if r[0] == 'c':
        return C(r[1], r[2])
    if r[0] == 'cv':
        return cat([const_bytes(x) for x in r[1]])
    if r[0] == 'z':
        ty = parse_type(r[1])
        return C(0, tbits(ty))
    raise Unsupported('constant %r' % (r[0],))


# ---------------------------------------------------------------------------
# intrinsics

def lanes(v):
    return v if isinstance(v, list) else [v]


def like(v, ls):
    return ls if isinstance(v, list) else ls[0]


def clampc(t, lo, hi, w):
    """saturate wide term t to [lo, hi], then narrow to w bits"""
    W = width(t)
    return trunc(B('smax', C(lo, W), B('smin', C(hi, W), t)), w)


def sat_s(t, w):
    return clampc(t, -(1 << (w - 1)), (1 << (w - 1)) - 1, w)


def sat_u(t, w):
    return clampc(t, 0, (1 << w) - 1, w)


def rshl(x, s, rounding, saturating, signed=True):
    """variable shift of a lane by a constant signed amount (ARM vshl family)"""
    w = width(x)
    if not is_c(s):
        raise Unsupported('shift by a variable amount')
    # the amount is the signed low byte
    k = sgn(s[2] & 255, 8)
    W = 2 * w + 2
    t = sext(x, W) if signed else zext(x, W)
    if k >= 0:
        if k > w:
            k = w
        t = B('shl', t, C(k, W)) if k else t
        if saturating:
            return sat_s(t, w) if signed else sat_u(t, w)
        return trunc(t, w)
    k = -k
    if k > w:
        k = w + 1 if rounding else w
        if rounding:
            return C(0, w)
    if rounding:
        t = B('add', t, C(1 << (k - 1), W))
    return trunc(B('ashr', t, C(k, W)), w)


def intrinsic(ev, n, a, ty):
    base = n
    m2 = {'smin': 'smin', 'smax': 'smax', 'umin': 'umin', 'umax': 'umax', 'sadd.sat': 'sadds',
          'uadd.sat': 'uadds', 'ssub.sat': 'ssubs', 'usub.sat': 'usubs'}
    m = re.match(r'llvm\.(smin|smax|umin|umax|sadd\.sat|uadd\.sat|ssub\.sat|usub\.sat)\.', n)
    if m:
        return ev.map2(lambda x, y: B(m2[m[1]], x, y), a[0], a[1])
    m = re.match(r'llvm\.(aarch64\.neon|arm\.neon)\.(\w+)', n)
    arm = m and m[2]
    if n.startswith('llvm.abs.'):
        return ev.map1(lambda x: sel(cmp('slt', x, C(0, width(x))), B('sub', C(0, width(x)), x), x), a[0])
    if n.startswith('llvm.fshl.') and is_c(lanes(a[2])[0]):
        def f(x, y, k):
            w = width(x)
            k = k[2] % w
            return ex(cat([y, x]), w - k, 2 * w - k)
        return like(a[0], [f(x, y, k) for x, y, k in zip(lanes(a[0]), lanes(a[1]), lanes(a[2]))])
    m = re.match(r'llvm\.vector\.reduce\.(and|or|xor|add|smin|smax|umin|umax)\.', n)
    if m:
        r = a[0][0]
        for x in a[0][1:]:
            r = B(m[1], r, x)
        return r
    if n.startswith('llvm.expect.'):
        return a[0]
    m = re.match(r'llvm\.(sadd|uadd|ssub|usub|smul|umul)\.with\.overflow', n)
    if m:
        w = width(a[0])
        o = m[1][1:]
        f = sext if m[1][0] == 's' else zext
        W = 2 * w + 1
        wide = B(o, f(a[0], W), f(a[1], W))
        r = B(o, a[0], a[1])
        return [r, cmp('ne', wide, f(r, W))]
    # --- ARM / AArch64 -----------------------------------------------------
    if arm:
        if arm in ('srhadd', 'vrhadds', 'urhadd', 'vrhaddu', 'shadd', 'vhadds', 'uhadd', 'vhaddu'):
            f = sext if arm in ('srhadd', 'vrhadds', 'shadd', 'vhadds') else zext
            rr = 1 if 'rh' in arm else 0
            def h(x, y):
                w = width(x)
                W = w + 2
                return trunc(B('ashr', B('add', B('add', f(x, W), f(y, W)), C(rr, W)), C(1, W)), w)
            return ev.map2(h, a[0], a[1])
        if arm in ('sqrdmulh', 'vqrdmulh', 'sqdmulh', 'vqdmulh'):
            def h(x, y):
                w = width(x)
                if 'rd' in arm and 'srdhm' in ev.opaque:
                    return mk('fn', w, 'srdhm', x, y)
                W = 2 * w + 2
                p = B('mul', sext(x, W), sext(y, W))
                if 'rd' in arm:
                    p = B('add', p, C(1 << (w - 2), W))
                return sat_s(B('ashr', p, C(w - 1, W)), w)
            return ev.map2(h, a[0], a[1])
        if arm in ('sqadd', 'vqadds'):
            return ev.map2(lambda x, y: B('sadds', x, y), a[0], a[1])
        if arm in ('sqsub', 'vqsubs'):
            return ev.map2(lambda x, y: B('ssubs', x, y), a[0], a[1])
        if arm in ('uqadd', 'vqaddu'):
            return ev.map2(lambda x, y: B('uadds', x, y), a[0], a[1])
        if arm in ('srshl', 'vrshifts', 'sshl', 'vshifts', 'sqshl', 'vqshifts', 'sqrshl', 'vqrshifts',
                   'ushl', 'vshiftu', 'urshl', 'vrshiftu', 'uqshl', 'vqshiftu'):
            rd = arm in ('srshl', 'vrshifts', 'sqrshl', 'vqrshifts', 'urshl', 'vrshiftu')
            st = 'q' in arm
            sg = not (arm.startswith('u') or arm.endswith('u'))
            return ev.map2(lambda x, s: rshl(x, s, rd, st, sg), a[0], a[1])
        if arm in ('sqxtn', 'vqmovns'):
            w = ty[2][1]
            return ev.map1(lambda x: sat_s(x, w), a[0])
        if arm in ('sqxtun', 'vqmovnsu'):
            w = ty[2][1]
            return ev.map1(lambda x: sat_u(x, w), a[0])
        if arm in ('uqxtn', 'vqmovnu'):
            w = ty[2][1]
            return ev.map1(lambda x: sat_u(zext(x, width(x) + 1), w), a[0])
        if arm in ('smax', 'vmaxs', 'smin', 'vmins', 'umax', 'vmaxu', 'umin', 'vminu'):
            o = {'vmaxs': 'smax', 'vmins': 'smin', 'vmaxu': 'umax', 'vminu': 'umin'}.get(arm, arm)
            return ev.map2(lambda x, y: B(o, x, y), a[0], a[1])
        if arm in ('saddlp', 'vpaddls', 'uaddlp', 'vpaddlu'):
            f = sext if arm in ('saddlp', 'vpaddls') else zext
            w = ty[2][1]
            return [B('add', f(a[0][2 * k], w), f(a[0][2 * k + 1], w)) for k in range(len(a[0]) // 2)]
        if arm in ('vpadals', 'vpadalu'):
            f = sext if arm == 'vpadals' else zext
            w = ty[2][1]
            return [B('add', x, B('add', f(a[1][2 * k], w), f(a[1][2 * k + 1], w))) for k, x in enumerate(a[0])]
        if arm in ('addp', 'vpadd'):
            v = a[0] + a[1]
            return [B('add', v[2 * k], v[2 * k + 1]) for k in range(len(v) // 2)]
        if arm in ('smull', 'vmulls', 'umull', 'vmullu'):
            f = sext if arm in ('smull', 'vmulls') else zext
            w = ty[2][1]
            return ev.map2(lambda x, y: B('mul', f(x, w), f(y, w)), a[0], a[1])
        if arm in ('saddlv', 'uaddlv', 'saddv', 'uaddv'):
            f = sext if arm[0] == 's' else zext
            r = None
            for x in a[0]:
                x = f(x, ty[1]) if width(x) < ty[1] else x
                r = x if r is None else B('add', r, x)
            return r
        if arm == 'vbsl':
            return [bitsel(m, x, y) for m, x, y in zip(a[0], a[1], a[2])]
        m = re.match(r'(vld1|ld1x?\d?)$', arm)
        if arm == 'vld1':
            return unflat(ev.load(a[0], tbits(ty) // 8, tbits(ty)), ty)
        if arm == 'vst1':
            ev.store(a[0], flat(a[1]), None)
            return None
        if arm in ('vtst',):
            return ev.map2(lambda x, y: sext(cmp('ne', B('and', x, y), C(0, width(x))), width(x)), a[0], a[1])
        return NotImplemented
    # --- x86 ---------------------------------------------------------------
    m = re.match(r'llvm\.x86\.(sse2|ssse3|sse41|avx|avx2)\.(.*)', n)
    if m:
        o = m[2]
        if re.match(r'psign\.[bwd]', o):
            def h(x, y):
                w = width(x)
                z = C(0, w)
                return sel(cmp('slt', y, z), B('sub', z, x), sel(cmp('eq', y, z), z, x))
            return ev.map2(h, a[0], a[1])
        if o.startswith('pmul.hr.sw'):
            def h(x, y):
                p = B('mul', sext(x, 32), sext(y, 32))
                return trunc(B('ashr', B('add', B('ashr', p, C(14, 32)), C(1, 32)), C(1, 32)), 16)
            return ev.map2(h, a[0], a[1])
        if re.match(r'p(ll|sra|srl|sll)i?\.[wdq]', o) or re.match(r'ps(ra|rl|ll)i\.', o):
            k = a[1]
            if isinstance(k, list) or not is_c(k):
                raise Unsupported('x86 shift by variable')
            opn = {'ra': 'ashr', 'rl': 'lshr', 'll': 'shl'}[o[2:4]]

            def h(x):
                w = width(x)
                c = k[2]
                if not 0 <= c < w:
                    if opn == 'ashr':
                        c = w - 1
                    else:
                        return C(0, w)
                return B(opn, x, C(c, w))
            return ev.map1(h, a[0])
        if re.match(r'(pavg)\.[bw]', o):
            def h(x, y):
                w = width(x)
                W = w + 2
                return trunc(B('lshr', B('add', B('add', zext(x, W), zext(y, W)), C(1, W)), C(1, W)), w)
            return ev.map2(h, a[0], a[1])
        mm = re.match(r'pack(ss|us)(wb|dw)', o)
        if mm:
            w = ty[2][1]
            f = sat_s if mm[1] == 'ss' else sat_u
            x, y = a
            n2 = 128 // width(x[0])
            out = []
            for h in range(len(x) // n2):
                out += [f(t, w) for t in x[h * n2:(h + 1) * n2]] + [f(t, w) for t in y[h * n2:(h + 1) * n2]]
            return out
        if re.match(r'ptest(c|z)', o):
            x, y = flat(a[0]), flat(a[1])
            w = width(x)
            v = B('and', B('xor', x, C(-1, w)) if o.startswith('ptestc') else x, y)
            return zext(cmp('eq', v, C(0, w)), 32)
        if re.match(r'(pmovmskb|movmsk)', o):
            bits = [ex(x, width(x) - 1, width(x)) for x in a[0]]
            return zext(cat(bits), 32)
        if re.match(r'(blendv|pblendvb)', o):
            x, y, k = a
            return [sel(ex(c, width(c) - 1, width(c)), q, p) for p, q, c in zip(x, y, k)]
        if o.startswith('pmadd.wd'):
            return [B('add', B('mul', sext(a[0][2 * k], 32), sext(a[1][2 * k], 32)),
                      B('mul', sext(a[0][2 * k + 1], 32), sext(a[1][2 * k + 1], 32)))
                    for k in range(len(a[0]) // 2)]
        if o.startswith('phadd.d') or o.startswith('phadd.w'):
            x, y = a
            n2 = 128 // width(x[0])
            out = []
            for h in range(len(x) // n2):
                for v in (x[h * n2:(h + 1) * n2], y[h * n2:(h + 1) * n2]):
                    out += [B('add', v[2 * k], v[2 * k + 1]) for k in range(len(v) // 2)]
            return out
        if o.startswith('permd'):
            if not all(is_c(x) for x in a[1]):
                raise Unsupported('variable permute')
            return [a[0][x[2] & 7] for x in a[1]]
        if o.startswith('pshuf.b'):
            out = []
            n2 = 16
            for k, c in enumerate(a[1]):
                if not is_c(c):
                    raise Unsupported('variable shuffle')
                out.append(C(0, 8) if c[2] & 0x80 else a[0][k // n2 * n2 + (c[2] & 15)])
            return out
        if o.startswith(('maskload', 'maskstore')):
            raise Unsupported('masked access')
        return NotImplemented
    # --- MIPS MSA ------------------------------------------------------------
    m = re.match(r'llvm\.mips\.(.*)', n)
    if m:
        return msa(ev, m[1], a, ty)
    m = re.match(r'llvm\.wasm\.(.*)', n)
    if m:
        return wasm(ev, m[1], a, ty)
    return NotImplemented


def bitsel(m, x, y):
    """x where m is set, else y"""
    return B('or', B('and', m, x), B('and', B('xor', m, C(-1, width(m))), y))


def msa(ev, o, a, ty):
    NOTW = lambda t: B('xor', t, C(-1, width(t)))
    base = o.split('.')[0]
    w = ty[2][1] if ty[0] == 'vec' else None

    def imm(f):
        k = a[1]
        if not is_c(k):
            raise Unsupported('immediate')
        return [f(x, k[2]) for x in a[0]]

    def amount(x, k):
        if not is_c(k):
            raise Unsupported('shift by a variable amount')
        return k[2] % width(x)

    def sh(op, x, k):
        return B(op, x, C(k, width(x))) if k else x

    def srar(x, k):
        if not k:
            return x
        W = width(x) + 2
        return trunc(B('ashr', B('add', sext(x, W), C(1 << (k - 1), W)), C(k, W)), width(x))
    two = {'and': lambda x, y: B('and', x, y), 'or': lambda x, y: B('or', x, y),
           'xor': lambda x, y: B('xor', x, y), 'nor': lambda x, y: NOTW(B('or', x, y)),
           'addv': lambda x, y: B('add', x, y), 'subv': lambda x, y: B('sub', x, y),
           'mulv': lambda x, y: B('mul', x, y),
           'ceq': lambda x, y: sext(cmp('eq', x, y), width(x))}
    if base in two:
        return ev.map2(two[base], a[0], a[1])
    sgn2 = {'clt.s': lambda x, y: sext(cmp('slt', x, y), width(x)),
            'cle.s': lambda x, y: sext(cmp('sle', x, y), width(x)),
            'min.s': lambda x, y: B('smin', x, y), 'max.s': lambda x, y: B('smax', x, y),
            'adds.s': lambda x, y: B('sadds', x, y), 'subs.s': lambda x, y: B('ssubs', x, y)}
    b2 = '.'.join(o.split('.')[:2])
    if b2 in sgn2:
        return ev.map2(sgn2[b2], a[0], a[1])
    if b2 == 'aver.s':
        def h(x, y):
            W = width(x) + 2
            return trunc(B('ashr', B('add', B('add', sext(x, W), sext(y, W)), C(1, W)), C(1, W)), width(x))
        return ev.map2(h, a[0], a[1])
    if b2 in ('mulr.q', 'mul.q'):
        def h(x, y):
            w = width(x)
            if b2 == 'mulr.q' and 'srdhm' in ev.opaque:
                return mk('fn', w, 'srdhm', x, y)
            W = 2 * w + 2
            p = B('mul', sext(x, W), sext(y, W))
            if b2 == 'mulr.q':
                p = B('add', p, C(1 << (w - 2), W))
            return sat_s(B('ashr', p, C(w - 1, W)), w)
        return ev.map2(h, a[0], a[1])
    if base == 'ldi' or base == 'fill':
        return [trunc(a[0], w) if width(a[0]) > w else a[0]] * ty[1]
    if base == 'ceqi':
        return imm(lambda x, k: sext(cmp('eq', x, C(k, width(x))), width(x)))
    if base in ('bnegi', 'bseti', 'bclri'):
        def h(x, k):
            w = width(x)
            return (B('xor', x, C(1 << k, w)) if base == 'bnegi' else B('or', x, C(1 << k, w))
                    if base == 'bseti' else B('and', x, C(~(1 << k), w)))
        return imm(h)
    if base == 'bsel':
        return [bitsel(m, y, x) for m, x, y in zip(a[0], a[1], a[2])]
    if base in ('bz', 'bnz'):
        t = flat(a[0])
        return zext(cmp('eq' if base == 'bz' else 'ne', t, C(0, width(t))), 32)
    if base == 'srli':
        return imm(lambda x, k: sh('lshr', x, k % width(x)))
    if base == 'srai':
        return imm(lambda x, k: sh('ashr', x, k % width(x)))
    if base == 'slli':
        return imm(lambda x, k: sh('shl', x, k % width(x)))
    if base == 'srari':
        return imm(srar)
    if base in ('sra', 'srl', 'sll'):
        op = {'sra': 'ashr', 'srl': 'lshr', 'sll': 'shl'}[base]
        return ev.map2(lambda x, k: sh(op, x, amount(x, k)), a[0], a[1])
    if base == 'srar':
        return ev.map2(lambda x, k: srar(x, amount(x, k)), a[0], a[1])
    mv = re.match(r'(ld|st)\.([bhwd])$', o)
    if mv:
        if mv[1] == 'ld':
            if not is_c(a[1]):
                raise Unsupported('variable offset')
            return unflat(ev.load(a[0].add((), a[1][2]), 16, 128), ty)
        if not is_c(a[2]):
            raise Unsupported('variable offset')
        ev.store(a[1].add((), a[2][2]), flat(a[0]), None)
        return None
    if base in ('ilvr', 'ilvl', 'ilvev', 'ilvod', 'pckev', 'pckod'):
        # result = op(ws = a[0], wt = a[1]); wt supplies the even/low result lanes
        s_, t_ = a[0], a[1]
        n = len(s_)
        h = n // 2
        if base == 'ilvr':
            return [x for k in range(h) for x in (t_[k], s_[k])]
        if base == 'ilvl':
            return [x for k in range(h, n) for x in (t_[k], s_[k])]
        if base == 'ilvev':
            return [x for k in range(0, n, 2) for x in (t_[k], s_[k])]
        if base == 'ilvod':
            return [x for k in range(1, n, 2) for x in (t_[k], s_[k])]
        if base == 'pckev':
            return t_[0::2] + s_[0::2]
        return t_[1::2] + s_[1::2]
    if base == 'splati':
        if not is_c(a[1]):
            raise Unsupported('immediate')
        return [a[0][a[1][2] % len(a[0])]] * len(a[0])
    if base in ('copy',):
        if not is_c(a[1]):
            raise Unsupported('immediate')
        x = a[0][a[1][2] % len(a[0])]
        return x if width(x) >= ty[1] else (sext if b2 == 'copy.s' else zext)(x, ty[1])
    if base in ('insert',):
        v = list(a[0])
        v[a[1][2] % len(v)] = trunc(a[2], width(v[0]))
        return v
    if base == 'insve':
        v = list(a[0])
        v[a[1][2] % len(v)] = a[2][0]
        return v
    if base == 'shf':
        k = a[1][2]
        return [a[0][j // 4 * 4 + ((k >> (2 * (j % 4))) & 3)] for j in range(len(a[0]))]
    if base == 'vshf':
        v = a[2] + a[1]          # index n..: first operand's vector
        n = len(a[0])
        if not all(is_c(x) for x in a[0]):
            raise Unsupported('variable shuffle')
        return [v[x[2] % (2 * n)] if not x[2] & 0xc0 else C(0, width(a[1][0])) for x in a[0]]
    if base == 'sldi':
        # bytes of (a0:a1) shifted down by a2 elements
        v = a[1] + a[0]
        k = a[2][2] % len(a[0])
        return v[k:k + len(a[0])]
    if base == 'maddv':
        return [B('add', x, B('mul', y, z)) for x, y, z in zip(*a[:3])]
    if base == 'msubv':
        return [B('sub', x, B('mul', y, z)) for x, y, z in zip(*a[:3])]
    if b2 in ('hadd.u', 'hadd.s'):
        f = zext if b2 == 'hadd.u' else sext
        return [B('add', f(a[0][2 * k + 1], w), f(a[1][2 * k], w)) for k in range(len(a[0]) // 2)]
    if base in ('addvi', 'subvi'):
        return imm(lambda x, k: B('add', x, C(k if base == 'addvi' else -k, width(x))))
    if b2 in ('maxi.s', 'mini.s', 'maxi.u', 'mini.u'):
        op = {'maxi.s': 'smax', 'mini.s': 'smin', 'maxi.u': 'umax', 'mini.u': 'umin'}[b2]
        return imm(lambda x, k: B(op, x, C(k, width(x))))
    if base in ('andi', 'ori', 'xori'):
        return imm(lambda x, k: B(base[:-1], x, C(k, width(x))))
    if b2 in ('min.u', 'max.u'):
        return ev.map2(lambda x, y: B({'min.u': 'umin', 'max.u': 'umax'}[b2], x, y), a[0], a[1])
    if b2 == 'sat.u':
        return imm(lambda x, k: trunc(B('umin', x, C((1 << (k + 1)) - 1, width(x))), width(x))
                   if k + 1 < width(x) else x)
    if b2 == 'sat.s':
        return imm(lambda x, k: clampc(x, -(1 << k), (1 << k) - 1, width(x)))
    return NotImplemented


def wasm(ev, o, a, ty):
    base = o.split('.')[0]
    if base == 'shuffle':
        v = a[0] + a[1]
        if not all(is_c(x) for x in a[2:]):
            raise Unsupported('variable shuffle')
        return [v[x[2] & 31] for x in a[2:]]
    if base == 'bitselect':
        return [bitsel(m, x, y) for x, y, m in zip(a[0], a[1], a[2])]
    if base in ('alltrue', 'anytrue'):
        r = None
        for x in a[0]:
            c = cmp('ne', x, C(0, width(x)))
            r = c if r is None else B('and' if base == 'alltrue' else 'or', r, c)
        return zext(r, 32)
    if o.startswith('avgr.unsigned'):
        def h(x, y):
            W = width(x) + 2
            return trunc(B('lshr', B('add', B('add', zext(x, W), zext(y, W)), C(1, W)), C(1, W)), width(x))
        return ev.map2(h, a[0], a[1])
    if o.startswith('narrow.signed'):
        w = ty[2][1]
        return [sat_s(x, w) for x in a[0] + a[1]]
    if o.startswith('q15mulr'):
        def h(x, y):
            p = B('add', B('mul', sext(x, 34), sext(y, 34)), C(1 << 14, 34))
            return sat_s(B('ashr', p, C(15, 34)), 16)
        return ev.map2(h, a[0], a[1])
    return NotImplemented

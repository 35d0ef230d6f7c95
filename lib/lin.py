"""Linear forms over symbols, read off LLVM's scalar evolution.

A linear form is {symbol: Fraction} with the constant under symbol 1.
Symbols: ('a',n) argument, ('k',loop) iteration number of a loop,
('m',path) value of an unmodified memory location, ('i',id) anything else,
('op', name, forms...) opaque operation on forms.
Widening/narrowing casts are looked through: the forms are over the
mathematical integers (assumption: no index overflow).
"""
from fractions import Fraction

from ir import Paths, alts


def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0:
            del r[k]
    return r


def scale(a, s):
    return {k: v * s for k, v in a.items()} if s else {}


def const(n):
    return {1: Fraction(n)} if n else {}


def is_const(a):
    if not a:
        return Fraction(0)
    if set(a) == {1}:
        return a[1]
    return None


def freeze(a):
    return tuple(sorted(a.items(), key=repr))


def show(a):
    if not a:
        return '0'
    out = []
    for k, v in sorted(a.items(), key=repr):
        n = '' if k == 1 else _sym(k)
        c = str(v)
        out.append(c if k == 1 else (n if v == 1 else '-' + n if v == -1 else c + '*' + n))
    return ' + '.join(out)


def _sym(k):
    if k[0] == 'a':
        return 'arg%d' % k[1]
    if k[0] == 'k':
        return 'k%d' % k[1]
    if k[0] == 'm':
        import ir
        return 'mem[%s]' % ir.show(k[1])
    if k[0] == 'op':
        return '%s(%s)' % (k[1], ', '.join(show(dict(x)) for x in k[2:]))
    return '%%%s' % (k[1],)


class Linear:
    def __init__(self, fn, paths=None, stable=None):
        self.fn = fn
        self.P = paths or Paths(fn)
        self.stable = stable   # predicate on a load inst: location unmodified
        if stable is None:
            written = set()
            for i in fn.all():
                if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                    ref = i.ops[1] if i.op == 'store' else i.ops[0]
                    for p in alts(self.P.path(ref)):
                        written.add(self._loc(p))
            self._written = written
            self.stable = lambda i: all(self._loc(p) not in written
                                        for p in alts(self.P.path(i.ops[0])))
        self._memo = {}

    @staticmethod
    def _loc(p):
        return (p[1], p[2]) if p[0] == 'off' else (p, 0)

    def ref(self, r):
        """linear form of an SSA reference, through its SCEV when it has one"""
        if r[0] == 'c':
            return const(r[1])
        if r[0] == 'n':
            return {}
        if r[0] == 'a':
            return {('a', r[1]): Fraction(1)}
        if r[0] == 'i':
            if r in self._memo:
                return self._memo[r]
            i = self.fn.inst[r[1]]
            s = i.get('scev')
            if s is None or (s[0] == 'v' and tuple(s[1]) == ('i', r[1])):
                v = self.leaf(i)
            else:
                v = self.scev(s)
            self._memo[r] = v
            return v
        if r[0] == 'g':
            return {('g', r[1]): Fraction(1)}
        return {('ref', r): Fraction(1)}

    def leaf(self, i):
        if i.op == 'load' and i.ord is None and self.stable(i):
            p = self.P.path(i.ops[0])
            return {('m', p): Fraction(1)}
        if i.op in ('ashr', 'lshr') and i.ops[1][0] == 'c' and i.get('exact'):
            return scale(self.ref(i.ops[0]), Fraction(1, 1 << i.ops[1][1]))
        if i.op in ('sdiv', 'udiv') and i.ops[1][0] == 'c' and i.get('exact'):
            return scale(self.ref(i.ops[0]), Fraction(1, i.ops[1][1]))
        if i.op in ('ptrtoint', 'inttoptr', 'sext', 'zext', 'trunc', 'freeze', 'bitcast'):
            return self.ref(i.ops[0])
        if i.op == 'add':
            return add(self.ref(i.ops[0]), self.ref(i.ops[1]))
        if i.op == 'sub':
            return add(self.ref(i.ops[0]), self.ref(i.ops[1]), -1)
        if i.op == 'shl' and i.ops[1][0] == 'c':
            return scale(self.ref(i.ops[0]), 1 << i.ops[1][1])
        if i.op in ('sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr', 'and'):
            self._memo[('i', i.id)] = {('i', i.id): Fraction(1)}
            return {('op', i.op, freeze(self.ref(i.ops[0])), freeze(self.ref(i.ops[1]))): Fraction(1)}
        if i.is_call() and (i.callee_name() or '').startswith(('llvm.smin', 'llvm.smax', 'llvm.umin',
                                                               'llvm.umax')):
            return self._minmax(i.callee_name()[5:9], [self.ref(o) for o in i.ops[:2]])
        if i.op == 'select':
            return {('i', i.id): Fraction(1)}
        return {('i', i.id): Fraction(1)}

    def _minmax(self, name, fs):
        fs = sorted({freeze(x) for x in fs})
        if len(fs) == 1:
            return dict(fs[0])
        return {('op', name) + tuple(fs): Fraction(1)}

    def scev(self, s):
        k = s[0]
        if k == 'c':
            return const(int(s[1]))
        if k == 'v':
            r = s[1]
            r = _t(r)
            if r[0] == 'i':
                if r in self._memo:
                    return self._memo[r]
                v = self.leaf(self.fn.inst[r[1]])
                self._memo[r] = v
                return v
            return self.ref(r)
        if k in ('sext', 'zext', 'trunc', 'p2i'):
            return self.scev(s[1])
        if k == 'add':
            r = {}
            for x in s[1:]:
                r = add(r, self.scev(x))
            return r
        if k == 'mul':
            fs = [self.scev(x) for x in s[1:]]
            c = Fraction(1)
            rest = []
            for f in fs:
                n = is_const(f)
                if n is not None:
                    c *= n
                else:
                    rest.append(f)
            if not rest:
                return const(c)
            if len(rest) == 1:
                return scale(rest[0], c)
            return {('op', 'mul') + tuple(sorted(map(freeze, rest), key=repr)): c}
        if k == 'rec':
            if len(s) == 4:
                a = self.scev(s[2])
                b = self.scev(s[3])
                n = is_const(b)
                if n is not None:
                    return add(a, {('k', s[1]): n})
                return add(a, {('op', 'mul', freeze(b), freeze({('k', s[1]): Fraction(1)})): Fraction(1)})
            return {('op', 'rec', s[1]) + tuple(freeze(self.scev(x)) for x in s[2:]): Fraction(1)}
        if k in ('smax', 'smin', 'umax', 'umin'):
            return self._minmax(k, [self.scev(x) for x in s[1:]])
        if k == 'udiv':
            return {('op', 'udiv', freeze(self.scev(s[1])), freeze(self.scev(s[2]))): Fraction(1)}
        return {('opaque', repr(s)): Fraction(1)}

    # ---- loops ------------------------------------------------------------
    def iterations(self, loop):
        """Number of times the loop body runs, from its only non-aborting
        exit: returns (form, exit block) or None.  The body is what executes
        between the exit test succeeding and the next test."""
        f = self.fn
        blocks = set(loop['blocks'])
        live = f.live_blocks()
        exits = []
        for b in loop['blocks']:
            for t in f.blocks[b].succ:
                if t.id not in blocks and t in live:
                    exits.append((f.blocks[b], t))
        if len(exits) != 1:
            return None
        b, t = exits[0]
        term = b.term
        if term.op != 'br' or len(term.ops) != 1 or term.ops[0][0] != 'i':
            return None
        c = f.inst[term.ops[0][1]]
        neg = f.blocks[term.d['succ'][0]] is t   # true edge leaves the loop
        while c.op == 'xor' and c.ops[1][0] == 'c' and c.ops[0][0] == 'i':
            neg = not neg
            c = f.inst[c.ops[0][1]]
        if c.op != 'icmp':
            return None
        pred = c.get('pred')
        if neg:
            pred = NEG[pred]
        # loop continues while A pred B
        d = add(self.ref(c.ops[0]), self.ref(c.ops[1]), -1)
        kk = ('k', loop['id'])
        c1 = d.pop(kk, None)
        if c1 is None:
            return None
        if any(_mentions(s, kk) for s in d):
            return None
        if not self._invariant(d, blocks):
            return None
        n = None
        p = pred.lstrip('us')
        if pred == 'ne':
            n = scale(d, Fraction(-1) / c1)
        elif p in ('lt', 'le') and c1 > 0:
            # smallest k with d + c1*k >= 0 (or > 0)
            if p == 'le':
                d = add(d, const(-1))
            n = scale(d, Fraction(-1) / c1)
            if c1 != 1 and not all(v.denominator == 1 for v in n.values()):
                n = {('op', 'ceil', freeze(n)): Fraction(1)}
        elif p in ('gt', 'ge') and c1 < 0:
            if p == 'ge':
                d = add(d, const(1))
            n = scale(d, Fraction(-1) / c1)
            if c1 != -1 and not all(v.denominator == 1 for v in n.values()):
                n = {('op', 'ceil', freeze(n)): Fraction(1)}
        if n is None:
            return None
        return n, b

    def _invariant(self, d, blocks):
        for s in d:
            if s != 1 and s[0] == 'i':
                i = self.fn.inst[s[1]]
                if i.bb.id in blocks:
                    return False
        return True

    def runs(self, loop, inst):
        """How often `inst` (in the loop, executed once per iteration) runs."""
        it = self.iterations(loop)
        if it is None:
            return None
        n, b = it
        f = self.fn
        # must execute on every iteration
        h = f.blocks[loop['header']]
        inner = set(loop['blocks'])
        # from header back to header avoiding inst?
        if _avoid(f, h, inst, inner):
            return None
        # runs before the test of its iteration?
        if inst.bb is b or b not in f.dom()[inst.bb]:
            return add(n, const(1))
        return n


def _avoid(f, h, inst, inner):
    """is there a path header -> header inside the loop that avoids inst?"""
    if inst.bb is h:
        return False
    seen = set()
    work = [s for s in h.succ if s.id in inner]
    while work:
        b = work.pop()
        if b is h:
            return True
        if b in seen or b is inst.bb:
            continue
        seen.add(b)
        work += [s for s in b.succ if s.id in inner]
    return False


def _mentions(s, k):
    if s == k:
        return True
    if isinstance(s, tuple):
        return any(_mentions(x, k) for x in s)
    return False


def _t(x):
    if isinstance(x, list):
        if x and x[0] == 'c' and len(x) == 3:
            return ('c', int(x[1]), x[2])
        return tuple(_t(y) for y in x)
    return x


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}

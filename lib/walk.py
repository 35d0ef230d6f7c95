"""Abstract interpretation of normalised IR with constant control: loops are
followed as often as their (constant) conditions say, data stay symbolic."""
import struct

from lane import (sext, Eval, Ptr, Unsupported, C, V, B, mk, is_c, width, cat, ex, flat, unflat, tbits, parse_type, cmp,
                  TRUE, FALSE, sgn, Memory, linear)


class Failed(Exception):
    """the analysed code reaches a failing assertion"""


class Budget(Unsupported):
    pass


def f2i(x, w):
    return struct.unpack('<i' if w == 32 else '<q', struct.pack('<f' if w == 32 else '<d', x))[0]


def i2f(c):
    w = c[1]
    return struct.unpack('<f' if w == 32 else '<d', struct.pack('<i' if w == 32 else '<q', sgn(c[2], w)))[0]


def address(p, w):
    """the pointer as an integer"""
    if p.base == 'null':
        return C(p.off, w)
    r = B('add', V(('addr', p.base), w), C(p.off, w))
    for t, c in p.sym:
        if t[0] == 'prod':
            return None
        r = B('add', r, B('mul', sext(t, w) if width(t) < w else t, C(c, w)))
    return r


def pointer(v):
    if is_c(v):
        return Ptr('null').add((), v[2])
    f, k = linear(v)
    bs = [t for t in f if t[0] == 'v' and isinstance(t[2], tuple) and t[2][0] == 'addr' and f[t] == 1]
    if len(bs) == 1:
        return Ptr(bs[0][2][1]).add([(t, c) for t, c in f.items() if t is not bs[0]], k)
    return None


class Walk(Eval):
    limit = 3000000

    frame = frames = steps = 0

    def run(self):
        self.mem = self.mem0
        self.cond = TRUE
        self.follow()
        return self

    def follow(self):
        fn = self.fn
        b = fn.blocks[0]
        prev = None
        steps = 0
        blocks = fn.blocks
        live = fn.live_blocks()
        while True:
            new = None
            for i in b.insts:
                if i.op == 'phi':
                    for v, p in i.ops:
                        if blocks[p] is prev:
                            new = new or []
                            new.append((i.id, self.ref(v)))
                            break
                    else:
                        raise Unsupported('phi without its predecessor')
                else:
                    if new:
                        self.val.update(new)
                        new = None
                    self.inst(i)
                steps += 1
            if new:
                self.val.update(new)
            if self.steps + steps > self.limit:
                raise Budget('more than %d steps' % self.limit)
            t = b.term
            if t.op == 'br':
                ss = [blocks[x] for x in t.d['succ']]
                if len(ss) == 2 and ss[0] is not ss[1]:
                    c = self.ref(t.ops[0])
                    if not is_c(c):
                        lv = [s for s in ss if s in live]
                        if len(lv) != 1:
                            raise Unsupported('the branch at %s depends on data: %r' % (t.loc(), c))
                        nxt = lv[0]
                        self.assumed += 1
                    else:
                        nxt = ss[0] if c[2] & 1 else ss[1]
                else:
                    nxt = ss[0]
            elif t.op == 'switch':
                c = self.ref(t.ops[0])
                if not is_c(c):
                    raise Unsupported('switch on data')
                nxt = blocks[t.d['def']]
                for cv, s in t.d['cases']:
                    if C(cv, width(c)) == c:
                        nxt = blocks[s]
            elif t.op == 'ret':
                self.ret = self.ref(t.ops[0]) if t.ops else None
                break
            elif t.op == 'unreachable':
                self.dead(b)
            else:
                raise Unsupported('terminator %s' % t.op)
            prev, b = b, nxt
        self.steps += steps

    def inst(self, i):
        if i.op == 'alloca' and self.frame:
            self.val[i.id] = Ptr('alloca%d.%d' % (self.frame, i.id))
            return
        super().inst(i)
        if i.op == 'store':
            p, v = self.ref(i.ops[1]), self.ref(i.ops[0])
            if isinstance(v, Ptr):
                t = address(v, 8 * self.fn.mod.ptrsize)
                if t is not None:
                    self.mem.store(p, t)

    def store(self, p, t, i):
        super().store(p, t, i)
        w = self.mem.w[p.base, p.sym]
        if ('p', p.off) in w:
            del w['p', p.off]

    def load_ptr(self, p):
        w = self.mem.w.get((p.base, p.sym), {})
        n = self.fn.mod.ptrsize
        if ('p', p.off) not in w and all(p.off + k in w for k in range(n)):
            r = pointer(self.mem.load(p, n))
            if r is not None:
                return r
        return super().load_ptr(p)

    def call(self, i, ty):
        n = i.callee_name()
        f = self.fn.mod.funcs.get(n) if n else None
        if f is None or not f.blocks:
            return super().call(i, ty)
        a = [self.ref(x) if x[0] != 'm' else None for x in i.ops]
        if self.call_model:
            r = self.call_model(self, i, n, a)
            if r is not NotImplemented:
                return r
        return self.nested(f, a)

    def nested(self, f, a):
        """the value returned by function f, followed on the same memory"""
        save = self.fn, self.val, self.args, self.frame
        Walk.frames += 1
        self.fn, self.val, self.args, self.frame = f, {}, a, Walk.frames
        mark = 'alloca%d.' % self.frame
        self.ret = None
        self.follow()
        self.fn, self.val, self.args, self.frame = save
        for k in [k for k in self.mem.w if k[0].startswith(mark)]:
            del self.mem.w[k]
        return self.ret

    def dead(self, b):
        for i in b.insts[::-1]:
            if i.is_call() and i.callee_name():
                raise Failed('%s reached at %s' % (i.callee_name(), i.loc()))
        raise Failed('undefined behaviour reached in %s' % self.fn.name)

    # -- constants the base class leaves symbolic --------------------------
    def compute(self, i):
        op = i.op
        if op == 'icmp':
            a, b = self.ref(i.ops[0]), self.ref(i.ops[1])
            if isinstance(a, Ptr):
                return self.ptrcmp(i.d['pred'], a, b)
        if op == 'sub':
            a, b = self.ref(i.ops[0]), self.ref(i.ops[1])
            if not isinstance(a, list) and not (is_c(a) or is_c(b)):
                x, k = linear(a)
                y, n = linear(b)
                if x == y and any(t[0] == 'v' and isinstance(t[2], tuple) and t[2][0] == 'addr' for t in x):
                    return C(k - n, width(a))
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'fneg', 'fadd', 'fsub', 'fmul',
                  'fdiv', 'fcmp'):
            a = [self.ref(x) for x in i.ops]
            if all(not isinstance(x, list) and is_c(x) for x in a):
                return self.float(i, op, a)
        return super().compute(i)

    def ptrcmp(self, pred, a, b):
        if a.base == b.base and a.sym == b.sym:
            return cmp(pred, C(a.off, 64), C(b.off, 64))
        if a.base != b.base and pred in ('eq', 'ne'):
            return TRUE if pred == 'ne' else FALSE
        raise Unsupported('comparison of %r and %r' % (a, b))

    def float(self, i, op, a):
        ty = parse_type(i.t)
        w = ty[1] if len(ty) > 1 and isinstance(ty[1], int) else None
        if op in ('sitofp', 'uitofp'):
            n = sgn(a[0][2], a[0][1]) if op[0] == 's' else a[0][2] & ((1 << a[0][1]) - 1)
            return C(f2i(struct.unpack('<f', struct.pack('<f', n))[0] if w == 32 else float(n), w), w)
        x = i2f(a[0])
        if op in ('fptosi', 'fptoui'):
            return C(int(x), w)
        if op in ('fpext', 'fptrunc'):
            return C(f2i(x, w), w)
        if op == 'fneg':
            return C(f2i(-x, w), w)
        y = i2f(a[1])
        if op == 'fcmp':
            p = i.d['pred']
            nan = x != x or y != y
            r = {'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}.get(p[1:])
            if r is None:
                raise Unsupported('fcmp ' + p)
            return TRUE if (r and not nan if p[0] == 'o' else r or nan) else FALSE
        r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
        return C(f2i(r, w), w)

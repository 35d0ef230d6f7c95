"""Value model of the inline assembly of the kernels: abstract interpretation
of an asm statement with constant control and symbolic lanes, for x86
(SSE4/AVX2), AArch64, ARM NEON and MIPS MSA."""
import re

from asm import A64, A32, X86, Mips, split_ops
from lane import Ptr, Unsupported, V, C, B, ex, cat, sext, zext, width, mk, is_c, linear


# A scalar register is a Ptr: a base object ('' for plain numbers) and a
# linear form.

def num(n):
    return Ptr('', (), n)


def add(a, b, s=1):
    if s == -1:
        if b.base:
            if a.base == b.base:
                r = Ptr('', a.sym, a.off)
                return r.add([(t, -c) for t, c in b.sym], -b.off)
            raise Unsupported('pointer subtraction')
        return a.add([(t, -c) for t, c in b.sym], -b.off)
    if a.base and b.base:
        raise Unsupported('sum of pointers')
    if b.base:
        a, b = b, a
    return a.add(b.sym, b.off)


def scale(a, k):
    if a.base and k != 1:
        raise Unsupported('scaled pointer')
    return Ptr(a.base, tuple((t, c * k) for t, c in a.sym if c * k), a.off * k)


def const(a, what='value'):
    if a.base or a.sym:
        raise Unsupported('%s is not constant: %r' % (what, a))
    return a.off


def term(p, w):
    """a scalar register as a term of w bits"""
    if p.base:
        raise Unsupported('pointer used as data')
    r = C(p.off, w)

    def full(t):
        if t[0] != 'prod':
            return t
        a, b = full(t[2]), full(t[3])
        v = max(width(a), width(b), w)
        return B('mul', sext(a, v) if width(a) < v else a, sext(b, v) if width(b) < v else b)
    for t, c in p.sym:
        t = full(t)
        x = t if width(t) == w else ex(t, 0, w) if width(t) > w else sext(t, w)
        r = B('add', B('mul', x, C(c, w)), r)
    return r


def sat(x, lo, hi, w):
    W = width(x)
    return ex(B('smin', B('smax', x, C(lo, W)), C(hi, W)), 0, w)


def shift(x, k):
    """SSHL/VSHL of x by the constant lane k (low byte, signed)"""
    if not is_c(k):
        raise Unsupported('shift by a value that is not constant')
    n = k[2] & 255
    n = n - 256 if n > 127 else n
    w = width(x)
    if n >= 0:
        return B('shl', x, C(n, w)) if n < w else C(0, w)
    return B('ashr', x, C(min(-n, w - 1), w))


def fl(op, *a):
    return mk('fn', width(a[0]), op, *a)


class Machine:
    """runs one asm statement"""
    limit = 400000
    vbits = 128
    gbits = 64

    def __init__(self, ev, a, vals):
        self.ev = ev
        self.a = a
        self.g = {}
        self.v = {}
        self.flags = None
        self.memops = {}
        for n, v in vals.items():
            if a.is_mem(n):
                self.memops[n] = v
            else:
                self.g[('op', n)] = self.scalar(v)

    @staticmethod
    def scalar(v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, list):
            raise Unsupported('vector operand of an asm statement')
        f, k = linear(v)
        return Ptr('', tuple(sorted(f.items(), key=repr)), k)

    def run(self):
        k, steps, n = 0, 0, len(self.a.insts)
        cache = {}
        while k < n:
            i = self.a.insts[k]
            steps += 1
            if steps > self.limit:
                raise Unsupported('the asm statement does not end within %d steps' % self.limit)
            t = self.step(i)
            if t is None:
                k += 1
            else:
                if (k, t) not in cache:
                    cache[k, t] = self.a.find(t, k)
                k = cache[k, t]
                if k is None:
                    raise Unsupported('branch out of the statement')
        self.steps = steps

    # -- vector registers --------------------------------------------------
    def lanes(self, r, w, bits=None):
        """lanes of the low `bits` of register r"""
        bits = bits or self.vbits
        v = self.v.get(r)
        if v is None:
            # whatever the register held before
            Machine.unset += 1
            v = self.v[r] = [V(('unset', Machine.unset, r, k), w) for k in range(self.rbits(r) // w)]
        if width(v[0]) != w:
            t = v[0] if len(v) == 1 else cat(v)
            v = [ex(t, k, k + w) for k in range(0, width(t), w)]
            self.v[r] = v
        return v[:bits // w] if len(v) * w > bits else v

    unset = 0

    def rbits(self, r):
        return 64 if r[0] == 'd' and self.vbits == 64 else self.vbits

    def put(self, r, ls, bits=None):
        self.v[r] = ls

    def vload(self, p, n, w):
        t = self.ev.load(p, n, 8 * n)
        return [ex(t, k, k + w) for k in range(0, 8 * n, w)]

    def vstore(self, p, ls):
        for x in ls:
            self.ev.store(p, x, None)
            p = p.add((), width(x) // 8)

    # -- flags -------------------------------------------------------------
    def setflags(self, a, b, sub=True):
        """flags of a-b (or of the result a with b None)"""
        self.flags = (a, b)

    def cond(self, cc):
        if self.flags is None:
            raise Unsupported('flags not set')
        a, b = self.flags
        w = self.gbits
        M = (1 << w) - 1
        if b is None:
            if cc not in ('e', 'z', 'eq', 'ne', 'nz', 's', 'ns', 'mi', 'pl', 'al'):
                raise Unsupported('carry or overflow of an addition')
            r = const(a, 'condition')
            z, s, c, v = (r & M) == 0, bool((r & M) >> (w - 1)), False, False
        else:
            d = const(add(a, b, -1), 'condition') if not (a.sym or b.sym) or a.sym == b.sym else None
            if d is None:
                raise Unsupported('the branch depends on symbolic values')
            z = (d & M) == 0
            s = bool((d & M) >> (w - 1))
            if not a.base and not a.sym and not b.base and not b.sym:
                x, y = a.off & M, b.off & M
                c = x < y
                sx = x - (1 << w) if x >> (w - 1) else x
                sy = y - (1 << w) if y >> (w - 1) else y
                v = not -(1 << (w - 1)) <= sx - sy < 1 << (w - 1)
            elif cc not in ('e', 'eq', 'z', 'ne', 'nz'):
                raise Unsupported('order of symbolic values')
            else:
                c = v = False
        r = {'e': z, 'z': z, 'eq': z, 'ne': not z, 'nz': not z, 's': s, 'ns': not s, 'mi': s, 'pl': not s,
                'a': not c and not z, 'ae': not c, 'b': c, 'be': c or z, 'hi': not c and not z, 'hs': not c,
                'cs': not c, 'lo': c, 'cc': c, 'ls': c or z, 'nc': not c,
                'l': s != v, 'lt': s != v, 'ge': s == v, 'g': not z and s == v, 'gt': not z and s == v,
                'le': z or s != v, 'al': True, 'nb': not c, 'nae': c, 'na': c or z, 'nbe': not c and not z, 'c': c,
                'ng': z or s != v, 'nl': s == v, 'nge': s != v, 'nle': not z and s == v, 'o': v, 'no': not v}
        if cc not in r:
            raise Unsupported('condition %s' % cc)
        return r[cc]

    @staticmethod
    def imm(s):
        s = s.strip().lstrip('#').strip()
        if not re.fullmatch(r'[-+*() 0-9xa-fA-F]+', s):
            raise Unsupported('immediate %s' % s)
        return int(eval(s, {'__builtins__': {}}))

    def opn(self, s):
        m = re.fullmatch(r'\$\{(\d+)(?::\w+)?\}|\$(\d+)', s.strip())
        return int(m[1] or m[2]) if m else None

    def unsup(self, i):
        raise Unsupported('asm instruction `%s`' % i.text)


# ---------------------------------------------------------------------------

class MX86(Machine):
    GP = {'ax', 'bx', 'cx', 'dx', 'si', 'di', 'bp', 'sp'}

    def __init__(self, *a):
        super().__init__(*a)
        self.gbits = 64 if self.ev.fn.mod.triple.startswith('x86_64') else 32

    def gkey(self, s):
        n = self.opn(s)
        if n is not None:
            return ('op', n)
        r = self.a.arch.regs(s)
        if len(r) == 1 and not r[0].startswith('xmm'):
            return r[0]
        return None

    def addr(self, s):
        m = re.fullmatch(r'([^()]*)\(([^()]*)\)', s.strip())
        if not m:
            raise Unsupported('address %s' % s)
        d = self.imm(m[1]) if m[1].strip() else 0
        p = [x.strip() for x in m[2].split(',')]
        r = self.get(p[0]) if p[0] else num(0)
        if len(p) > 1 and p[1]:
            r = add(r, scale(self.get(p[1]), self.imm(p[2]) if len(p) > 2 else 1))
        return r.add((), d)

    def ismem(self, s):
        n = self.opn(s)
        return '(' in s or n is not None and n in self.memops

    def maddr(self, s):
        n = self.opn(s)
        return self.memops[n] if n is not None else self.addr(s)

    def get(self, s):
        s = s.strip()
        if s.startswith('#'):
            return num(self.imm(s))
        if self.ismem(s):
            p = self.maddr(s)
            w = self.mem_ptr(p)
            if w is not None:
                return w
            return self.scalar(self.ev.load(p, self.gbits // 8, self.gbits))
        k = self.gkey(s)
        if k is None or k not in self.g:
            raise Unsupported('reads the unset register %s' % s)
        return self.g[k]

    def mem_ptr(self, p):
        return self.ev.mem.w.get((p.base, p.sym), {}).get(('p', p.off))

    def set(self, s, v):
        if self.ismem(s):
            p = self.maddr(s)
            if v.base or v.sym:
                raise Unsupported('stores an address')
            self.ev.store(p, C(v.off, self.gbits), None)
            return
        self.g[self.gkey(s)] = v

    def xreg(self, s):
        m = re.fullmatch(r'%?%?([xyz])mm(\d+)', s.strip())
        return ('xmm' + m[2], {'x': 128, 'y': 256}.get(m[1])) if m else (None, None)

    def vec(self, s, w, bits):
        r, b = self.xreg(s)
        if r:
            return self.lanes(r, w, bits)
        return self.vload(self.maddr(s), bits // 8, w)

    def put2(self, s, ls, vex):
        r, b = self.xreg(s)
        if not vex and r in self.v:
            # legacy encodings keep the upper half
            t = self.lanes(r, width(ls[0]), 256)
            ls = ls + t[len(ls):]
        self.v[r] = ls

    ALU = re.compile(r'(add|sub|and|or|xor|imul|cmp|test|mov|lea|shl|sal|shr|sar|inc|dec|neg)([bwlq]?)$')

    def step(self, i):
        mn, o = i.mn, i.ops
        if mn.startswith(('prefetch', 'nop', 'vzeroupper')):
            return None
        if mn == 'jmp':
            return o[0]
        if mn[0] == 'j':
            return o[0] if self.cond(mn[1:]) else None
        m = self.ALU.match(mn)
        if m and not self.xreg(o[-1])[0] and not self.xreg(o[0])[0]:
            self.scal(i, m[1], o)
            return None
        self.simd(i, mn, o)
        return None

    def scal(self, i, op, o):
        if op == 'lea':
            self.set(o[1], self.addr(o[0]))
        elif op == 'mov':
            self.set(o[1], self.get(o[0]))
        elif op in ('add', 'sub'):
            a, b = self.get(o[1]), self.get(o[0])
            r = add(a, b, 1 if op == 'add' else -1)
            self.set(o[1], r)
            self.flags = (a, b) if op == 'sub' else (r, None)
        elif op in ('inc', 'dec'):
            a = self.get(o[0])
            r = a.add((), 1 if op == 'inc' else -1)
            self.set(o[0], r)
            self.flags = (r, None)
        elif op == 'neg':
            r = scale(self.get(o[0]), -1)
            self.set(o[0], r)
            self.flags = (r, None)
        elif op in ('shl', 'sal'):
            k, d = (self.imm(o[0]), o[1]) if len(o) == 2 else (1, o[0])
            r = scale(self.get(d), 1 << k)
            self.set(d, r)
            self.flags = (r, None)
        elif op in ('shr', 'sar'):
            k, d = (self.imm(o[0]), o[1]) if len(o) == 2 else (1, o[0])
            r = num(const(self.get(d)) >> k)
            self.set(d, r)
            self.flags = (r, None)
        elif op == 'cmp':
            self.flags = (self.get(o[1]), self.get(o[0]))
        elif op == 'test':
            a, b = self.get(o[0]), self.get(o[1])
            if a == b:
                if a.base:
                    raise Unsupported('test of a pointer')
                self.flags = (a, num(0))
            else:
                self.flags = (num(const(a) & const(b)), num(0))
        elif op == 'xor' and o[0] == o[1]:
            self.set(o[1], num(0))
            self.flags = (num(0), None)
        elif op in ('and', 'or', 'xor'):
            a, b = const(self.get(o[1])), const(self.get(o[0]))
            r = num(a & b if op == 'and' else a | b if op == 'or' else a ^ b)
            self.set(o[1], r)
            self.flags = (r, num(0))
        elif op == 'imul':
            k = const(self.get(o[0]))
            s = self.get(o[1])
            self.set(o[-1], scale(s, k))
        else:
            self.unsup(i)

    PW = {'b': 8, 'w': 16, 'd': 32, 'q': 64}

    def simd(self, i, mn, o):
        vex = mn[0] == 'v'
        n = mn[1:] if vex else mn
        dst = o[-1]
        dr, bits = self.xreg(dst)
        if n in ('movdqu', 'movdqa', 'movups', 'movaps', 'lddqu', 'movapd', 'movupd'):
            if dr:
                if self.xreg(o[0])[0]:
                    self.put2(dst, list(self.vec(o[0], 32, bits)), vex)
                else:
                    self.put2(dst, self.vload(self.maddr(o[0]), bits // 8, 8), vex)
            else:
                r, b = self.xreg(o[0])
                self.vstore(self.maddr(dst), self.lanes(r, self.natural(r), b))
            return
        if not dr:
            if n == 'movq' or n == 'movd' or n.startswith('extracti128'):
                r, b = self.xreg(o[-2])
                ls = self.lanes(r, 32, 256 if n[0] == 'e' else 128)
                if n[0] == 'e':
                    k = self.imm(o[0])
                    ls = ls[4 * k:4 * k + 4]
                else:
                    ls = ls[:2 if n == 'movq' else 1]
                self.vstore(self.maddr(dst), ls)
                return
            self.unsup(i)
        # AT&T order: [imm,] src2, src1, dst
        src = o[:-1]
        im = None
        if src and src[0].startswith('#'):
            im = self.imm(src[0])
            src = src[1:]
        m = re.fullmatch(r'pmov([sz])x(b|w|d)(w|d|q)', n)
        if m:
            f, t = self.PW[m[2]], self.PW[m[3]]
            cnt = bits // t
            r, b = self.xreg(src[0])
            ls = self.lanes(r, f, 128)[:cnt] if r else self.vload(self.maddr(src[0]), cnt * f // 8, f)
            if len(ls) < cnt:
                raise Unsupported(i.text)
            self.put2(dst, [(sext if m[1] == 's' else zext)(x, t) for x in ls], vex)
            return
        if n == 'pshufd':
            a = self.vec(src[0], 32, bits)
            self.put2(dst, [a[k - k % 4 + (im >> (2 * (k % 4)) & 3)] for k in range(bits // 32)], vex)
            return
        if n == 'permq':
            a = self.vec(src[0], 64, 256)
            self.put2(dst, [a[im >> (2 * k) & 3] for k in range(4)], vex)
            return
        if n == 'perm2i128':
            b, a = self.vec(src[0], 128, 256), self.vec(src[1], 128, 256)
            out = []
            for k in (0, 4):
                f = im >> k & 15
                out.append(C(0, 128) if f & 8 else (a if f & 3 < 2 else b)[f & 1])
            self.put2(dst, out, vex)
            return
        if n == 'extracti128':
            self.put2(dst, [self.vec(src[0], 128, 256)[im & 1]], vex)
            return
        if n == 'inserti128':
            a = list(self.vec(src[1], 128, 256))
            a[im & 1] = self.vec(src[0], 128, 128)[0]
            self.put2(dst, a, vex)
            return
        m = re.fullmatch(r'p?broadcast(d|q|w|b|i128)', n)
        if m:
            w = {'i128': 128}.get(m[1]) or self.PW[m[1]]
            r, b = self.xreg(src[0])
            x = self.lanes(r, w, 128)[0] if r else self.vload(self.maddr(src[0]), w // 8, w)[0]
            self.put2(dst, [x] * (bits // w), vex)
            return
        if n in ('pxor', 'xorps', 'xorpd') and len(set(o)) == 1:
            self.put2(dst, [C(0, 32)] * (bits // 32), vex)
            return
        # two sources
        if not vex and len(src) == 1:
            src = src + [dst]
        if len(src) != 2:
            self.unsup(i)
        m = re.fullmatch(r'p(add|sub)([bwdq])', n)
        if m:
            w = self.PW[m[2]]
            b, a = self.vec(src[0], w, bits), self.vec(src[1], w, bits)
            self.put2(dst, [B(m[1], x, y) for x, y in zip(a, b)], vex)
            return
        m = re.fullmatch(r'pmull([wd])', n)
        if m:
            w = self.PW[m[1]]
            b, a = self.vec(src[0], w, bits), self.vec(src[1], w, bits)
            self.put2(dst, [B('mul', x, y) for x, y in zip(a, b)], vex)
            return
        if n == 'pmaddwd':
            b, a = self.vec(src[0], 16, bits), self.vec(src[1], 16, bits)
            p = [B('mul', sext(x, 32), sext(y, 32)) for x, y in zip(a, b)]
            self.put2(dst, [B('add', p[2 * k], p[2 * k + 1]) for k in range(len(p) // 2)], vex)
            return
        if n in ('pxor', 'por', 'pand'):
            b, a = self.vec(src[0], 32, bits), self.vec(src[1], 32, bits)
            self.put2(dst, [B(n[1:], x, y) for x, y in zip(a, b)], vex)
            return
        m = re.fullmatch(r'punpck([lh])(bw|wd|dq|qdq)', n)
        if m:
            w = {'bw': 8, 'wd': 16, 'dq': 32, 'qdq': 64}[m[2]]
            b, a = self.vec(src[0], w, bits), self.vec(src[1], w, bits)
            out = []
            c = 128 // w
            for h in range(0, bits // w, c):
                s = h + (c // 2 if m[1] == 'h' else 0)
                for k in range(c // 2):
                    out += [a[s + k], b[s + k]]
            self.put2(dst, out, vex)
            return
        if n == 'phaddd':
            b, a = self.vec(src[0], 32, bits), self.vec(src[1], 32, bits)
            out = []
            for h in range(0, bits // 32, 4):
                for z in (a, b):
                    out += [B('add', z[h], z[h + 1]), B('add', z[h + 2], z[h + 3])]
            self.put2(dst, out, vex)
            return
        self.unsup(i)

    def natural(self, r):
        return width(self.v[r][0]) if r in self.v else 32


# ---------------------------------------------------------------------------

class MA64(Machine):
    EW = {'b': 8, 'h': 16, 's': 32, 'd': 64, 'q': 128}

    def gkey(self, s):
        n = self.opn(s)
        if n is not None:
            return ('op', n)
        m = re.fullmatch(r'[xw](\d+)', s.strip())
        return 'x' + m[1] if m else None

    def get(self, s):
        s = s.strip()
        if s in ('xzr', 'wzr'):
            return num(0)
        if s.startswith('#') or re.fullmatch(r'-?\d+', s):
            return num(self.imm(s))
        k = self.gkey(s)
        if k is None or k not in self.g:
            raise Unsupported('reads the unset register %s' % s)
        return self.g[k]

    def set(self, s, v):
        self.g[self.gkey(s)] = v

    VR = re.compile(r'v(\d+)\.(\d*)([bhsd])(?:\[(\d+)\])?$')

    def vr(self, s):
        m = self.VR.match(s.strip())
        if not m:
            raise Unsupported('vector operand %s' % s)
        w = self.EW[m[3]]
        n = int(m[2]) if m[2] else None
        return 'v' + m[1], n, w, (int(m[4]) if m[4] is not None else None)

    def rd(self, s, hi=False):
        r, n, w, ix = self.vr(s)
        ls = self.lanes(r, w, 128)
        if ix is not None:
            return [ls[ix]]
        if hi:
            return ls[n // 2:n] if n * w == 128 else ls
        return ls[:n]

    def wr(self, s, ls):
        r, n, w, ix = self.vr(s)
        if ix is not None:
            a = list(self.lanes(r, w, 128))
            a[ix] = ls[0]
            self.v[r] = a
            return
        if n is not None and len(ls) != n:
            raise Unsupported('lane count of %s' % s)
        if len(ls) * width(ls[0]) < 128:
            ls = list(ls) + [C(0, width(ls[0]))] * (128 // width(ls[0]) - len(ls))
        self.v[r] = ls

    def reglist(self, s):
        m = re.fullmatch(r'\{(.*)\}(?:\[(\d+)\])?', s.strip())
        out = []
        for x in m[1].split(','):
            x = x.strip()
            r = re.fullmatch(r'v(\d+)(\.\w+)\s*-\s*v(\d+)(\.\w+)', x)
            if r:
                out += ['v%d%s' % (k, r[2]) for k in range(int(r[1]), int(r[3]) + 1)]
            else:
                out.append(x)
        return out, (int(m[2]) if m[2] else None)

    def mem(self, o):
        """address of the operands from the bracket on; returns (address, write-back action)"""
        m = re.fullmatch(r'\[(.*)\](!?)', o[0].strip())
        p = [x.strip() for x in m[1].split(',')]
        base = self.get(p[0])
        a = base
        if len(p) > 1:
            a = add(a, self.get(p[1]))
            if len(p) > 2:
                raise Unsupported('address %s' % o[0])
        if m[2]:
            return a, lambda: self.set(p[0], a)
        if len(o) > 1:
            inc = self.get(o[1])
            return a, lambda: self.set(p[0], add(base, inc))
        return a, lambda: None

    def ldst(self, i, mn, o):
        k = next((k for k, x in enumerate(o) if x.startswith('[')), None)
        if k is None:
            k = next((k for k, x in enumerate(o) if self.opn(x) in self.memops), None)
            if k is None:
                self.unsup(i)
            a, wb = self.memops[self.opn(o[k])], lambda: None
        else:
            a, wb = self.mem(o[k:])
        m = re.fullmatch(r'(ld|st)([1234])(r?)', mn)
        if m:
            regs, ix = self.reglist(o[0])
            cnt = int(m[2])
            if m[3]:
                if cnt != 1:
                    self.unsup(i)
                r, n, w, _ = self.vr(regs[0])
                x = self.vload(a, w // 8, w)[0]
                for r in regs:
                    self.wr(r, [x] * n)
            elif ix is not None or any('[' in r for r in regs):
                if cnt != len(regs):
                    self.unsup(i)
                for r in regs:
                    r = r if '[' in r else '%s[%d]' % (r, ix)
                    w = self.vr(r)[2]
                    if m[1] == 'ld':
                        self.wr(r, self.vload(a, w // 8, w))
                    else:
                        self.vstore(a, self.rd(r))
                    a = a.add((), w // 8)
            elif cnt == 1:
                for r in regs:
                    _, n, w, _ = self.vr(r)
                    if m[1] == 'ld':
                        self.wr(r, self.vload(a, n * w // 8, w))
                    else:
                        self.vstore(a, self.natural(r))
                    a = a.add((), n * w // 8)
            else:
                _, n, w, _ = self.vr(regs[0])
                if m[1] == 'ld':
                    xs = self.vload(a, n * cnt * w // 8, w)
                    for q, r in enumerate(regs):
                        self.wr(r, xs[q::cnt])
                else:
                    ls = [self.rd(r) for r in regs]
                    self.vstore(a, [ls[q][j] for j in range(n) for q in range(cnt)])
        elif mn in ('ldr', 'str', 'ldp', 'stp', 'ldur', 'stur'):
            if mn[0] == 'l' and k == 1 and re.fullmatch(r'x\d+', o[0].strip()):
                w = self.ev.mem.w.get((a.base, a.sym), {}).get(('p', a.off))
                if w is not None:
                    self.set(o[0], w)
                    wb()
                    return
            for s in o[:k]:
                m = re.fullmatch(r'([qdsxw])(\d+)', s.strip())
                if not m and mn[0] == 'l':
                    # operand register
                    n = 8 if self.gbits == 64 else 4
                    self.set(s, self.scalar(self.ev.load(a, n, 8 * n)))
                    a = a.add((), n)
                    continue
                if not m:
                    self.unsup(i)
                if m[1] in 'xw':
                    n = 8 if m[1] == 'x' else 4
                    if mn[0] == 'l':
                        self.set(s, self.scalar(self.ev.load(a, n, 8 * n)))
                    else:
                        v = self.get(s)
                        self.ev.store(a, C(const(v), 8 * n), None)
                else:
                    n = {'q': 16, 'd': 8, 's': 4}[m[1]]
                    r = 'v' + m[2]
                    if mn[0] == 'l':
                        ls = self.vload(a, n, 8)
                        self.v[r] = ls + [C(0, 8)] * (16 - len(ls))
                    else:
                        self.vstore(a, self.lanes(r, width(self.v[r][0]) if r in self.v else 8, 8 * n))
                a = a.add((), n)
        else:
            self.unsup(i)
        wb()

    def natural(self, s):
        r, n, w, _ = self.vr(s)
        if r in self.v and width(self.v[r][0]) <= n * w:
            return self.lanes(r, width(self.v[r][0]), n * w)
        return self.rd(s)

    CC = r'(eq|ne|lt|le|gt|ge|hi|hs|lo|ls|mi|pl|cs|cc|al)'

    def step(self, i):
        mn, o = i.mn, i.ops
        if mn == 'b':
            return o[0]
        m = re.fullmatch(r'b\.?' + self.CC, mn)
        if m:
            return o[0] if self.cond(m[1]) else None
        if mn in ('cbz', 'cbnz'):
            z = const(self.get(o[0]), 'condition') == 0
            return o[1] if z == (mn == 'cbz') else None
        if mn.startswith(('prfm', 'nop')):
            return None
        if mn.startswith(('ld', 'st')):
            self.ldst(i, mn, o)
            return None
        if not re.match(r'v\d', o[0]) and not mn.startswith('.'):
            self.scal(i, mn, o)
        else:
            self.simd(i, mn, o)
        return None

    def scal(self, i, mn, o):
        if mn in ('mov', 'movs'):
            self.set(o[0], self.get(o[1]))
        elif mn in ('add', 'sub', 'adds', 'subs'):
            if len(o) == 2:
                o = [o[0]] + o
            a, b = self.get(o[1]), self.get(o[2])
            if len(o) == 4:
                m = re.fullmatch(r'lsl\s*#?(\d+)', o[3])
                if not m:
                    self.unsup(i)
                b = scale(b, 1 << int(m[1]))
            r = add(a, b, 1 if mn[0] == 'a' else -1)
            self.set(o[0], r)
            if mn[-1] == 's':
                self.flags = (a, b) if mn[0] == 's' else (r, None)
        elif mn == 'lsl':
            s = o[1] if len(o) == 3 else o[0]
            self.set(o[0], scale(self.get(s), 1 << const(self.get(o[-1]))))
        elif mn in ('lsr', 'asr'):
            s = o[1] if len(o) == 3 else o[0]
            self.set(o[0], num(const(self.get(s)) >> const(self.get(o[-1]))))
        elif mn == 'mul':
            s = o[1] if len(o) == 3 else o[0]
            a, b = self.get(s), self.get(o[-1])
            if a.sym or a.base:
                a, b = b, a
            self.set(o[0], scale(b, const(a)))
        elif mn == 'cmp':
            self.flags = (self.get(o[0]), self.get(o[1]))
        elif mn in ('and', 'ands'):
            r = num(const(self.get(o[-2])) & const(self.get(o[-1])))
            self.set(o[0], r)
            if mn == 'ands':
                self.flags = (r, None)
        elif mn == 'tst':
            self.flags = (num(const(self.get(o[0])) & const(self.get(o[1]))), None)
        else:
            self.unsup(i)

    def simd(self, i, mn, o):
        if mn == '.word':
            return self.word(i, self.imm(o[0]))
        E = {'s': sext, 'u': zext}
        if mn in ('dup', 'movi'):
            r, n, w, ix = self.vr(o[0])
            if re.match(r'v\d', o[1]):
                x = self.rd(o[1])[0]
            else:
                if mn == 'movi' and len(o) > 2:
                    self.unsup(i)
                x = term(self.get(o[1]), w)
            return self.wr(o[0], [x] * (n or 1))
        if mn in ('mov', 'ins', 'orr') and (len(o) == 2 or o[1] == o[2]):
            if not re.match(r'v\d', o[1]):
                w = self.vr(o[0])[2]
                return self.wr(o[0], [term(self.get(o[1]), w)])
            return self.wr(o[0], list(self.rd(o[1])))
        m = re.fullmatch(r'([su])(add|sub)w(2?)', mn)
        if m:
            w = self.vr(o[0])[2]
            return self.wr(o[0], [B(m[2], x, E[m[1]](y, w)) for x, y in zip(self.rd(o[1]),
                                                                           self.rd(o[2], bool(m[3])))])
        m = re.fullmatch(r'(sqxtn|sqxtun|uqxtn|xtn)(2?)', mn)
        if m:
            r, n, w, _ = self.vr(o[0])
            a = self.rd(o[1])
            f = {'sqxtn': lambda x: sat(x, -1 << (w - 1), (1 << (w - 1)) - 1, w),
                 'sqxtun': lambda x: sat(x, 0, (1 << w) - 1, w), 'xtn': lambda x: ex(x, 0, w)}.get(m[1])
            if f is None:
                self.unsup(i)
            a = [f(x) for x in a]
            if m[2]:
                self.v[r] = list(self.lanes(r, w, 128)[:n // 2]) + a
                return None
            return self.wr(o[0], a)
        if mn == 'sshl':
            return self.wr(o[0], [shift(x, y) for x, y in zip(self.rd(o[1]), self.rd(o[2]))])
        if mn in ('fmul', 'fadd', 'fsub'):
            a = self.rd(o[1])
            b = self.rd(o[2]) * len(a) if '[' in o[2] else self.rd(o[2])
            return self.wr(o[0], [fl(mn, x, y) for x, y in zip(a, b)])
        if mn in ('scvtf', 'fcvtzs', 'fcvtns', 'ucvtf', 'fcvtas') and len(o) == 2:
            f = {'scvtf': 'sitofp', 'ucvtf': 'uitofp', 'fcvtzs': 'fptosi_sat'}.get(mn, mn)
            return self.wr(o[0], [fl(f, x) for x in self.rd(o[1])])
        if mn in ('umin', 'umax', 'smin', 'smax'):
            return self.wr(o[0], [B(mn, x, y) for x, y in zip(self.rd(o[1]), self.rd(o[2]))])
        m = re.fullmatch(r'([su])(xt|sh)l(2?)', mn)
        if m:
            w = self.vr(o[0])[2]
            a = self.rd(o[1], bool(m[3]))
            k = self.imm(o[2]) if m[2] == 'sh' else 0
            return self.wr(o[0], [B('shl', E[m[1]](x, w), C(k, w)) if k else E[m[1]](x, w) for x in a])
        m = re.fullmatch(r'([su])m(ul|la|ls)l(2?)', mn)
        if m:
            w = self.vr(o[0])[2]
            a = self.rd(o[1], bool(m[3]))
            b = self.rd(o[2]) * len(a) if '[' in o[2] else self.rd(o[2], bool(m[3]))
            p = [B('mul', E[m[1]](x, w), E[m[1]](y, w)) for x, y in zip(a, b)]
            if m[2] != 'ul':
                p = [B('add' if m[2] == 'la' else 'sub', x, y) for x, y in zip(self.rd(o[0]), p)]
            return self.wr(o[0], p)
        if mn in ('mul', 'mla', 'mls'):
            a = self.rd(o[1])
            b = self.rd(o[2]) * len(a) if '[' in o[2] else self.rd(o[2])
            p = [B('mul', x, y) for x, y in zip(a, b)]
            if mn != 'mul':
                p = [B('add' if mn == 'mla' else 'sub', x, y) for x, y in zip(self.rd(o[0]), p)]
            return self.wr(o[0], p)
        if mn in ('add', 'sub'):
            return self.wr(o[0], [B(mn, x, y) for x, y in zip(self.rd(o[1]), self.rd(o[2]))])
        if mn == 'addp':
            a = list(self.rd(o[1])) + list(self.rd(o[2]))
            return self.wr(o[0], [B('add', a[k], a[k + 1]) for k in range(0, len(a), 2)])
        m = re.fullmatch(r'([su])ada?lp', mn)
        if m or re.fullmatch(r'[su]addlp', mn):
            s = mn[0]
            w = self.vr(o[0])[2]
            a = self.rd(o[1])
            p = [B('add', E[s](a[k], w), E[s](a[k + 1], w)) for k in range(0, len(a), 2)]
            if m:
                p = [B('add', x, y) for x, y in zip(self.rd(o[0]), p)]
            return self.wr(o[0], p)
        m = re.fullmatch(r'([su])dot', mn)
        if m:
            return self.dot(m[1], o[0], o[1], o[2])
        if mn == 'eor' and o[1] == o[2]:
            r, n, w, _ = self.vr(o[0])
            return self.wr(o[0], [C(0, w)] * n)
        m = re.fullmatch(r'(zip|uzp|trn)([12])', mn)
        if m:
            a, b, h = self.rd(o[1]), self.rd(o[2]), int(m[2]) - 1
            n = len(a)
            if m[1] == 'uzp':
                return self.wr(o[0], (list(a) + list(b))[h::2])
            if m[1] == 'trn':
                return self.wr(o[0], [y for k in range(h, n, 2) for y in (a[k], b[k])])
            return self.wr(o[0], [y for k in range(h * n // 2, (h + 1) * n // 2) for y in (a[k], b[k])])
        if mn == 'ext':
            a = list(self.rd(o[1])) + list(self.rd(o[2]))
            k = self.imm(o[3])
            return self.wr(o[0], a[k:k + len(a) // 2])
        self.unsup(i)

    def dot(self, s, d, n, m):
        e = sext if s == 's' else zext
        a = self.rd(n)
        b = self.rd(m)
        if '[' in m:
            r, _, _, ix = self.vr(m.replace('.4b[', '.s['))
            x = self.lanes(r, 8, 128)[4 * ix:4 * ix + 4]
            b = list(x) * 4
        acc = list(self.rd(d))
        for k in range(len(acc)):
            for q in range(4):
                acc[k] = B('add', acc[k], B('mul', e(a[4 * k + q], 32), e(b[4 * k + q], 32)))
        self.wr(d, acc)

    def word(self, i, n):
        """instructions given by their encoding: UDOT/SDOT (by element or vector)"""
        q, u = n >> 30 & 1, n >> 29 & 1
        rd, rn, rm = n & 31, n >> 5 & 31, n >> 16 & 31
        if n >> 31 == 0 and n >> 24 & 0x1f == 0x0f and n >> 22 & 3 == 2 and n >> 12 & 15 == 14 and not n >> 10 & 1:
            ix = (n >> 11 & 1) * 2 + (n >> 21 & 1)
            if not q:
                self.unsup(i)
            return self.dot('u' if u else 's', 'v%d.4s' % rd, 'v%d.16b' % rn, 'v%d.4b[%d]' % (rm, ix))
        if n >> 31 == 0 and n >> 21 & 0x1ff == 0x74 and n >> 10 & 63 == 0x25 and q:
            return self.dot('u' if u else 's', 'v%d.4s' % rd, 'v%d.16b' % rn, 'v%d.16b' % rm)
        self.unsup(i)


# ---------------------------------------------------------------------------

class MA32(MA64):
    """registers d0..d31 as byte-addressable 64-bit registers"""
    gbits = 32
    vbits = 64

    def gkey(self, s):
        n = self.opn(s)
        if n is not None:
            return ('op', n)
        m = re.fullmatch(r'r(\d+)', s.strip())
        return 'r' + m[1] if m else {'ip': 'r12', 'lr': 'r14', 'fp': 'r11'}.get(s.strip())

    def dregs(self, s):
        """'q3' -> ['d6', 'd7'], with lane index"""
        m = re.fullmatch(r'([dq])(\d+)(?:\[(\d+)\])?', s.strip())
        if not m:
            raise Unsupported('vector operand %s' % s)
        n = int(m[2])
        return ['d%d' % n] if m[1] == 'd' else ['d%d' % (2 * n), 'd%d' % (2 * n + 1)], \
            (int(m[3]) if m[3] is not None else None)

    def q(self, s, w):
        r, ix = self.dregs(s)
        ls = [x for d in r for x in self.lanes(d, w, 64)]
        return [ls[ix]] if ix is not None else ls

    def pq(self, s, ls):
        r, ix = self.dregs(s)
        w = width(ls[0])
        if ix is not None:
            a = list(self.lanes(r[0], w, 64))
            a[ix] = ls[0]
            self.v[r[0]] = a
            return
        n = 64 // w
        if len(ls) != n * len(r):
            raise Unsupported('lane count of %s' % s)
        for k, d in enumerate(r):
            self.v[d] = ls[n * k:n * k + n]

    def dlist(self, s):
        m = re.fullmatch(r'\{(.*)\}', s.strip())
        out = []
        for x in m[1].split(','):
            x = x.strip()
            r = re.fullmatch(r'([dq])(\d+)\s*-\s*[dq](\d+)', x)
            if r:
                out += ['%s%d' % (r[1], k) for k in range(int(r[2]), int(r[3]) + 1)]
            else:
                out.append(x)
        return [d if '[' in x else d for x in out for d in ([x] if '[' in x else self.dregs(x)[0])]

    def mem(self, o):
        m = re.fullmatch(r'\[(.*?)\](!?)', o[0].strip())
        p = [x.strip() for x in m[1].split(',')]
        r = p[0].split(':')[0].strip() if '$' not in p[0] or ':' not in p[0] else re.sub(r':\d+$', '', p[0]).strip()
        base = self.get(r)
        a = add(base, self.get(p[1])) if len(p) > 1 else base
        if m[2]:
            return a, lambda n: self.set(r, a if len(p) > 1 else base.add((), n))
        if len(o) > 1:
            inc = self.get(o[1])
            return a, lambda n: self.set(r, add(base, inc))
        return a, lambda n: None

    def step(self, i):
        mn, o = i.mn, i.ops
        base = mn.split('.')[0]
        if base == 'b':
            return o[0]
        m = re.fullmatch(r'b' + self.CC, base)
        if m:
            return o[0] if self.cond(m[1]) else None
        if base in ('pld', 'nop'):
            return None
        if base[0] != 'v':
            if base in ('ldr', 'str'):
                k = next((k for k, x in enumerate(o) if x.startswith('[')), None)
                if k is not None:
                    a, wb = self.mem(o[k:])
                    if base == 'ldr':
                        w = self.ev.mem.w.get((a.base, a.sym), {}).get(('p', a.off))
                        self.set(o[0], w if w is not None else self.scalar(self.ev.load(a, 4, 32)))
                    else:
                        self.ev.store(a, C(const(self.get(o[0])), 32), None)
                    wb(0)
                    return None
                n = self.opn(o[1])
                if base == 'ldr' and n in self.memops:
                    a = self.memops[n]
                    w = self.ev.mem.w.get((a.base, a.sym), {}).get(('p', a.off))
                    self.set(o[0], w if w is not None else self.scalar(self.ev.load(a, 4, 32)))
                    return None
                self.unsup(i)
            self.scal(i, base, o)
            return None
        ty = mn.split('.')[1] if '.' in mn else ''
        m = re.fullmatch(r'([suif]?)(\d+)', ty)
        sg, w = (m[1], int(m[2])) if m else ('', 32)
        e = sext if sg == 's' else zext
        m = re.fullmatch(r'v(ld|st)([1234])', base)
        if m:
            regs = self.dlist(o[0])
            a, wb = self.mem(o[1:])
            cnt = int(m[2])
            if any('[' in r for r in regs):
                if cnt != len(regs) or '[]' in o[0]:
                    self.unsup(i)
                for k, r in enumerate(regs):
                    if m[1] == 'ld':
                        self.pq(r, self.vload(a.add((), k * w // 8), w // 8, w))
                    else:
                        self.vstore(a.add((), k * w // 8), self.q(r, w))
                wb(cnt * w // 8)
            elif cnt == 1:
                for k, r in enumerate(regs):
                    if m[1] == 'ld':
                        self.v[r] = self.vload(a.add((), 8 * k), 8, w if w <= 64 else 64)
                    else:
                        ww = min(width(self.v[r][0]), 64) if r in self.v else w
                        self.vstore(a.add((), 8 * k), self.lanes(r, ww, 64))
                wb(8 * len(regs))
            else:
                if len(regs) != cnt:
                    self.unsup(i)
                n = 64 // w
                if m[1] == 'ld':
                    xs = self.vload(a, 8 * cnt, w)
                    for k, r in enumerate(regs):
                        self.v[r] = xs[k::cnt]
                else:
                    ls = [self.lanes(r, w, 64) for r in regs]
                    self.vstore(a, [ls[k][j] for j in range(n) for k in range(cnt)])
                wb(8 * cnt)
            return None
        if base in ('vldr', 'vstr'):
            a, wb = self.mem(o[1:])
            if not o[0].startswith('d'):
                self.unsup(i)
            if base == 'vldr':
                self.v[o[0]] = self.vload(a, 8, 8)
            else:
                self.vstore(a, self.lanes(o[0], width(self.v[o[0]][0]), 64))
            return None
        if base in ('vldm', 'vldmia', 'vstm', 'vstmia'):
            r = o[0].rstrip('!')
            a = self.get(r)
            regs = self.dlist(o[1])
            for k, d in enumerate(regs):
                if base[1] == 'l':
                    self.v[d] = self.vload(a.add((), 8 * k), 8, 8)
                else:
                    self.vstore(a.add((), 8 * k), self.lanes(d, width(self.v[d][0]), 64))
            if o[0].endswith('!'):
                self.set(r, a.add((), 8 * len(regs)))
            return None
        if base in ('vmov', 'vdup'):
            if re.match(r'[dq]\d', o[0]):
                n = 64 // w * len(self.dregs(o[0])[0])
                if re.match(r'[dq]\d', o[1]):
                    if base == 'vdup':
                        self.pq(o[0], self.q(o[1], w) * n)
                    else:
                        ww = width(self.v.get(self.dregs(o[1])[0][0], [C(0, w)])[0])
                        self.pq(o[0], self.q(o[1], ww))
                elif '[' in o[0] and base == 'vmov':
                    self.pq(o[0], [term(self.get(o[1]), w)])
                else:
                    self.pq(o[0], [term(self.get(o[1]), w)] * n)
                return None
            self.unsup(i)
        if sg == 'f' and base in ('vmul', 'vadd', 'vsub'):
            a, b = self.q(o[1], w), self.q(o[2], w)
            b = b * len(a) if len(b) == 1 else b
            self.pq(o[0], [fl('f' + base[1:], x, y) for x, y in zip(a, b)])
            return None
        if base == 'vcvt':
            f = {'vcvt.f32.s32': 'sitofp', 'vcvt.f32.u32': 'uitofp', 'vcvt.s32.f32': 'fptosi_sat'}.get(mn)
            if f is None or len(o) != 2:
                self.unsup(i)
            self.pq(o[0], [fl(f, x) for x in self.q(o[1], 32)])
            return None
        if base in ('vaddw', 'vsubw'):
            self.pq(o[0], [B(base[1:4], x, e(y, 2 * w)) for x, y in zip(self.q(o[1], 2 * w), self.q(o[2], w))])
            return None
        if base in ('vqmovn', 'vqmovun', 'vmovn'):
            h = w // 2
            f = {'vqmovn': lambda x: sat(x, -1 << (h - 1), (1 << (h - 1)) - 1, h),
                 'vqmovun': lambda x: sat(x, 0, (1 << h) - 1, h), 'vmovn': lambda x: ex(x, 0, h)}[base]
            if sg == 'u':
                self.unsup(i)
            self.pq(o[0], [f(x) for x in self.q(o[1], w)])
            return None
        if base == 'vshl' and sg == 's' and re.match(r'[dq]\d', o[2]):
            self.pq(o[0], [shift(x, y) for x, y in zip(self.q(o[1], w), self.q(o[2], w))])
            return None
        if base in ('vmin', 'vmax') and sg in 'su' and sg:
            self.pq(o[0], [B(sg + base[1:], x, y) for x, y in zip(self.q(o[1], w), self.q(o[2], w))])
            return None
        if base == 'vmovl':
            self.pq(o[0], [e(x, 2 * w) for x in self.q(o[1], w)])
            return None
        m = re.fullmatch(r'vm(ul|la|ls)(l?)', base)
        if m:
            a = self.q(o[1], w)
            b = self.q(o[2], w)
            if len(b) == 1:
                b = b * len(a)
            W = 2 * w if m[2] else w
            p = [B('mul', e(x, W), e(y, W)) if m[2] else B('mul', x, y) for x, y in zip(a, b)]
            if m[1] != 'ul':
                p = [B('add' if m[1] == 'la' else 'sub', x, y) for x, y in zip(self.q(o[0], W), p)]
            self.pq(o[0], p)
            return None
        if base in ('vpadal', 'vpaddl'):
            a = self.q(o[1], w)
            p = [B('add', e(a[k], 2 * w), e(a[k + 1], 2 * w)) for k in range(0, len(a), 2)]
            if base == 'vpadal':
                p = [B('add', x, y) for x, y in zip(self.q(o[0], 2 * w), p)]
            self.pq(o[0], p)
            return None
        if base == 'vpadd':
            a = self.q(o[1], w) + self.q(o[2], w)
            self.pq(o[0], [B('add', a[k], a[k + 1]) for k in range(0, len(a), 2)])
            return None
        if base in ('vadd', 'vsub'):
            self.pq(o[0], [B(base[1:], x, y) for x, y in zip(self.q(o[1], w), self.q(o[2], w))])
            return None
        if base == 'vext':
            a = self.q(o[1], w) + self.q(o[2], w)
            k = self.imm(o[3])
            self.pq(o[0], a[k:k + len(a) // 2])
            return None
        if base == 'vswp':
            r, s = self.dregs(o[0])[0], self.dregs(o[1])[0]
            for x, y in zip(r, s):
                self.v[x], self.v[y] = self.v[y], self.v[x]
            return None
        if base in ('vtrn', 'vzip', 'vuzp'):
            a, b = self.q(o[0], w), self.q(o[1], w)
            n = len(a)
            if base == 'vtrn':
                x = [y for k in range(0, n, 2) for y in (a[k], b[k])]
                y = [y for k in range(1, n, 2) for y in (a[k], b[k])]
            elif base == 'vzip':
                z = [y for k in range(n) for y in (a[k], b[k])]
                x, y = z[:n], z[n:]
            else:
                z = a + b
                x, y = z[::2], z[1::2]
            self.pq(o[0], x)
            self.pq(o[1], y)
            return None
        if base == 'veor' and len(o) == 3 and o[1] == o[2]:
            n = 64 // w * len(self.dregs(o[0])[0])
            self.pq(o[0], [C(0, w)] * n)
            return None
        self.unsup(i)


# ---------------------------------------------------------------------------

class MMips(Machine):
    EW = {'b': 8, 'h': 16, 'w': 32, 'd': 64}

    def __init__(self, *a):
        super().__init__(*a)
        self.gbits = 64 if self.ev.fn.mod.triple.startswith('mips64') else 32

    def gkey(self, s):
        n = self.opn(s)
        if n is not None:
            return ('op', n)
        r = self.a.arch.regs(s)
        return r[0] if len(r) == 1 else None

    def get(self, s):
        s = s.strip()
        if s in ('#0', '#zero'):
            return num(0)
        if re.fullmatch(r'[-+*() 0-9x]+', s):
            return num(self.imm(s))
        k = self.gkey(s)
        if k is None or k not in self.g:
            raise Unsupported('reads the unset register %s' % s)
        return self.g[k]

    def set(self, s, v):
        self.g[self.gkey(s)] = v

    def w(self, s):
        m = re.fullmatch(r'#w(\d+)(?:\[(\d+)\])?', s.strip())
        if not m:
            raise Unsupported('vector operand %s' % s)
        return 'w' + m[1], (int(m[2]) if m[2] is not None else None)

    def step(self, i):
        mn, o = i.mn, i.ops
        if mn in ('b', 'j'):
            return o[0]
        if mn in ('beqz', 'bnez'):
            z = const(self.get(o[0]), 'condition') == 0
            return o[1] if z == (mn == 'beqz') else None
        if mn in ('beq', 'bne'):
            z = const(add(self.get(o[0]), self.get(o[1]), -1), 'condition') == 0
            return o[2] if z == (mn == 'beq') else None
        if mn.startswith(('pref', 'nop')):
            return None
        if mn in ('addiu', 'daddiu', 'addu', 'daddu', 'subu', 'dsubu', 'add', 'sub'):
            if len(o) == 2:
                o = [o[0]] + o
            self.set(o[0], add(self.get(o[1]), self.get(o[2]), -1 if 'sub' in mn else 1))
            return None
        if mn in ('sll', 'dsll'):
            self.set(o[0], scale(self.get(o[-2]), 1 << const(self.get(o[-1]))))
            return None
        if mn in ('move',):
            self.set(o[0], self.get(o[1]))
            return None
        m = re.fullmatch(r'(ld|st)\.([bhwd])', mn)
        if m:
            x = re.fullmatch(r'(.*)\(([^()]*)\)', o[1].strip())
            a = add(self.get(x[2]), num(self.imm(x[1]) if x[1].strip() else 0))
            r, _ = self.w(o[0])
            if m[1] == 'ld':
                self.v[r] = self.vload(a, 16, self.EW[m[2]])
            else:
                self.vstore(a, self.lanes(r, width(self.v[r][0]) if r in self.v else 8, 128))
            return None
        n, f = mn.rsplit('.', 1) if '.' in mn else (mn, 'b')
        W = self.EW.get(f, 8)
        d, dix = self.w(o[0])
        if n == 'ldi':
            self.v[d] = [C(self.imm(o[1]), W)] * (128 // W)
            return None
        s, six = self.w(o[1])
        if n == 'move':
            self.v[d] = list(self.lanes(s, width(self.v[s][0]), 128))
            return None
        if n == 'splati':
            self.v[d] = [self.lanes(s, W, 128)[six]] * (128 // W)
            return None
        t, _ = self.w(o[2])
        m = re.fullmatch(r'(dotp|dpadd|dpsub|hadd)_([su])', n)
        if m:
            e = sext if m[2] == 's' else zext
            h = W // 2
            a, b = self.lanes(s, h, 128), self.lanes(t, h, 128)
            if m[1] == 'hadd':
                self.v[d] = [B('add', e(a[2 * k + 1], W), e(b[2 * k], W)) for k in range(len(a) // 2)]
                return None
            p = [B('mul', e(x, W), e(y, W)) for x, y in zip(a, b)]
            p = [B('add', p[2 * k], p[2 * k + 1]) for k in range(len(p) // 2)]
            if m[1] != 'dotp':
                op = 'add' if m[1] == 'dpadd' else 'sub'
                p = [B(op, x, y) for x, y in zip(self.lanes(d, W, 128), p)]
            self.v[d] = p
            return None
        a, b = self.lanes(s, W, 128), self.lanes(t, W, 128)
        c = len(a)
        if n in ('addv', 'subv', 'mulv'):
            self.v[d] = [B(n[:3], x, y) for x, y in zip(a, b)]
        elif n == 'maddv':
            self.v[d] = [B('add', z, B('mul', x, y)) for z, x, y in zip(self.lanes(d, W, 128), a, b)]
        elif n in ('ilvl', 'ilvr'):
            k0 = c // 2 if n == 'ilvl' else 0
            self.v[d] = [y for k in range(k0, k0 + c // 2) for y in (b[k], a[k])]
        elif n in ('ilvev', 'ilvod'):
            h = n == 'ilvod'
            self.v[d] = [y for k in range(h, c, 2) for y in (b[k], a[k])]
        elif n in ('pckev', 'pckod'):
            h = n == 'pckod'
            self.v[d] = (list(b[h::2]) + list(a[h::2]))
        elif n == 'xor' and s == t:
            self.v[d] = [C(0, 32)] * 4
        else:
            self.unsup(i)
        return None


MACH = {'x86': MX86, 'aarch64': MA64, 'arm': MA32, 'mips': MMips}


def run(ev, i, a):
    """interpret the asm statement of call i; returns the values of its outputs"""
    vals = {}
    ops = [ev.ref(x) for x in i.ops if x[0] != 'm']
    it = iter(ops)
    ins = []
    for n, c in enumerate(a.cons):
        if n < a.n_out and '*' not in c:
            continue
        v = next(it)
        ins.append(n)
        m = re.fullmatch(r'\d+', c)
        if m and '*' in a.cons[int(c)]:
            # read-write memory operand: the value is put where it lives
            p = vals[int(c)]
            if isinstance(v, Ptr):
                ev.mem.w.setdefault((p.base, p.sym), {})[('p', p.off)] = v
            else:
                ev.store(p, v, i)
            continue
        vals[int(c) if m else n] = v
    mach = MACH[a.arch.name](ev, a, vals)
    mach.run()
    outs = []
    for n in range(a.n_out):
        if '*' in a.cons[n]:
            continue
        v = mach.g.get(('op', n))
        outs.append(v)
    ev.asm_steps = getattr(ev, 'asm_steps', 0) + mach.steps
    return outs

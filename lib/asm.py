"""Effect model of GNU inline assembly (AArch64, ARM/NEON, x86, MIPS) as it
appears in LLVM IR: parses the template into instructions and says, for each,
which registers and operands it reads and writes, whether it touches memory or
the flags, and where control goes."""
import re


class AsmInst:
    __slots__ = ('text', 'mn', 'ops', 'reads', 'writes', 'load', 'store', 'flags', 'target', 'cond',
                 'jump', 'labels', 'unknown', 'rflags', 'mems', 'insert')

    def __init__(self, text):
        self.text = text
        self.mn = ''
        self.ops = []
        self.reads = []      # canonical register names or ('op', n)
        self.writes = []
        self.load = self.store = False
        self.flags = False   # writes flags
        self.rflags = False  # reads flags
        self.target = None
        self.jump = False    # unconditional jump
        self.cond = False
        self.labels = []
        self.unknown = None
        self.mems = []
        self.insert = False  # writes only part of its destination register

    def __repr__(self):
        return self.text


def split_ops(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '[({':
            depth += 1
        elif ch in '])}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


OPREF = re.compile(r'\$\{(\d+)(?::\w+)?\}|\$(\d+)')


def oprefs(s):
    return [('op', int(a or b)) for a, b in OPREF.findall(s)]


class Arch:
    comment = None

    def regs(self, s):
        raise NotImplementedError

    def canon_clobber(self, c):
        return set(self.regs(c))


class A64(Arch):
    name = 'aarch64'
    R = re.compile(r'(?<![\w$.])(?:([xw])(\d+)|(sp|xzr|wzr|lr)|([vqdshb])(\d+))(?=$|[^\w])')
    comment = re.compile(r'//.*$')
    NODEST = re.compile(r'^(cmp|cmn|tst|b$|b\.|b(eq|ne|lt|le|gt|ge|hi|hs|lo|ls|mi|pl|cs|cc|vs|vc|al)$|cbn?z|tbn?z|prfm|nop|st|dmb|dsb|isb|fcmp|hint|ccm[pn]|ret)')
    FLAGS = re.compile(r'^(cmp|cmn|tst|fcmp|ccm[pn]|(add|sub|and|bic|neg|adc|sbc)s$)')
    RMW = re.compile(r'^([su]ml[as]l2?|ml[as]|[su]adalp|sqdml|[su]aba|[su]aba?l2?|fml[as]|[usf]?dot|[us]rsra|[us]sra|ins|sqrdml|bs[ l]|bi[tf]|sli|sri|xtn2|[su]qxtu?n2|r?shrn2|sqr?shru?n2|addhn2|movk|tbx|[su]adalp|sudot|usdot|smmla|ummla)')

    def regs(self, s):
        out = []
        s = re.sub(r'\{?(v\d+)(\.\w+)?\s*-\s*(v\d+)(\.\w+)?\}?', lambda m: ' '.join(
            'v%d' % k for k in range(int(m[1][1:]), int(m[3][1:]) + 1)), s)
        for m in self.R.finditer(re.sub(r'\.\w+', '', s)):
            if m[1]:
                out.append('x' + m[2])
            elif m[3]:
                if m[3] == 'lr':
                    out.append('x30')
                elif m[3] == 'sp':
                    out.append('sp')
            else:
                out.append('v' + m[5])
        return out

    def effects(self, i):
        mn, ops = i.mn, i.ops
        if mn in ('.word', '.inst', '.long'):
            # UDOT/SDOT (by element, or vector) given by their encoding
            try:
                n = int(ops[0], 0)
            except (ValueError, IndexError):
                n = 0
            if n & 0x9fc0f400 == 0x0f80e000 or n & 0x9fe0fc00 == 0x0e809400:
                i.writes = ['v%d' % (n & 31)]
                m = n >> 16 & 31
                i.reads = ['v%d' % k for k in (n & 31, n >> 5 & 31, m)]
            else:
                i.unknown = 'instruction given by its encoding'
            return
        base = mn.split('.')[0]
        isb = re.match(r'^(b|bl|br|blr)$', base) or mn.startswith('b.') or \
            re.match(r'^b(eq|ne|lt|le|gt|ge|hi|hs|lo|ls|mi|pl|cs|cc|vs|vc|al)$', mn)
        if isb:
            if base in ('bl', 'br', 'blr'):
                i.unknown = 'call or indirect branch'
            i.target = ops[0] if ops else None
            i.cond = mn not in ('b', 'bal', 'b.al')
            i.rflags = i.cond
            i.jump = not i.cond
            return
        if re.match(r'^(cbn?z|tbn?z)', base):
            i.target = ops[-1]
            i.cond = True
            self.read(i, ops[0])
            return
        i.flags = bool(self.FLAGS.match(base))
        i.rflags = bool(re.match(r'^(csel|cset|csin|csneg|cinc|adc|sbc|ccm|fcsel)', base))
        mem = [k for k, o in enumerate(ops) if o.startswith('[')]
        if mem:
            k = mem[0]
            m = ops[k]
            i.mems.append(m)
            wb = m.endswith('!') or k + 1 < len(ops)
            inner = m[1:m.index(']')]
            self.read(i, inner)
            for o in ops[k + 1:]:
                self.read(i, o)
            if wb:
                self.write(i, split_ops(inner)[0])
            if base.startswith('st'):
                i.store = True
                for o in ops[:k]:
                    self.read(i, o)
            elif base.startswith('prf'):
                pass
            elif base.startswith('ld'):
                i.load = True
                for o in ops[:k]:
                    self.write(i, o)
                    if re.search(r'\}\s*\[|\w\[\d+\]', o):
                        i.insert = True
            else:
                i.unknown = 'memory operand of unknown instruction'
            return
        mrefs = [o for o in ops if re.match(r'^\$', o)]
        if base.startswith('ld'):
            # "ldr x0, %[memory operand]"
            i.load = True
            for o in ops[:-1]:
                self.write(i, o)
            self.read(i, ops[-1])
            return
        if self.NODEST.match(mn):
            if base.startswith('st') and ops:
                i.store = True
            for o in ops:
                self.read(i, o)
            return
        if not ops:
            i.unknown = 'no operands'
            return
        for o in ops[1:]:
            self.read(i, o)
        same = len(ops) == 3 and ops[1] == ops[2] and base in ('eor', 'sub')
        if same:
            i.reads.clear()
        self.write(i, ops[0])
        if re.search(r'\[\d+\]$', ops[0]):
            i.insert = True
        elif self.RMW.match(base):
            self.read(i, ops[0])

    def read(self, i, s):
        i.reads += self.regs(s) + oprefs(s)

    def write(self, i, s):
        i.writes += self.regs(s) + oprefs(s)


class A32(A64):
    name = 'arm'
    R = re.compile(r'(?<![\w$.])(?:r(\d+)|(sp|lr|pc|ip|fp)|([qds])(\d+))(?=$|[^\w])')
    comment = re.compile(r'(//|@).*$')
    CC = r'(eq|ne|lt|le|gt|ge|hi|hs|lo|ls|mi|pl|cs|cc|vs|vc|al)'
    RMW = re.compile(r'^(vml[as]l?|vpadal|vqdml|vabal?|v[r]?sra|vsli|vsri|vbsl|vbit|vbif|vfm[as]|vtbx|vsdot|vudot|movt)')

    def regs(self, s):
        out = []
        for m in re.finditer(r'([dq])(\d+)\s*-\s*[dq](\d+)', s):
            for k in range(int(m[2]), int(m[3]) + 1):
                out += ['d%d' % k] if m[1] == 'd' else ['d%d' % (2 * k), 'd%d' % (2 * k + 1)]
        s = re.sub(r'([dq])(\d+)\s*-\s*[dq](\d+)', '', s)
        for m in self.R.finditer(s):
            if m[1]:
                out.append('r' + m[1])
            elif m[2]:
                out.append({'ip': 'r12', 'fp': 'r11', 'sp': 'sp', 'lr': 'r14', 'pc': 'pc'}[m[2]])
            elif m[3] == 'q':
                out += ['d%d' % (2 * int(m[4])), 'd%d' % (2 * int(m[4]) + 1)]
            elif m[3] == 's':
                out.append('d%d' % (int(m[4]) // 2))
            else:
                out.append('d' + m[4])
        return out

    def effects(self, i):
        mn, ops = i.mn, i.ops
        if mn[0] == '.':
            i.unknown = 'instruction given by its encoding'
            return
        base = mn.split('.')[0]
        if re.match(r'^b' + self.CC + '?$', base) or base in ('bl', 'bx', 'blx'):
            if base in ('bl', 'bx', 'blx'):
                i.unknown = 'call or indirect branch'
            i.target = ops[0]
            i.cond = base not in ('b', 'bal')
            i.rflags = i.cond
            i.jump = not i.cond
            return
        if re.match(r'^(cmp|cmn|tst|teq|pld|pli|nop|dmb|dsb|isb|vcmp)', base):
            i.flags = base[:2] in ('cm', 'ts', 'te')
            for o in ops:
                self.read(i, o)
            return
        if re.match(r'^(add|sub|rsb|and|orr|eor|bic|mov|mvn|lsl|lsr|asr|mul|adc|sbc|rsc)s$', base):
            i.flags = True
        m = re.match(r'^(add|sub|rsb|and|orr|eor|bic|mov|mvn|lsl|lsr|asr|mul|ldr|str)' + self.CC + '$', base)
        if m:
            i.rflags = True
        mem = [k for k, o in enumerate(ops) if o.startswith('[')]
        if mem:
            k = mem[0]
            o = ops[k]
            i.mems.append(o)
            wb = o.endswith('!') or k + 1 < len(ops)
            inner = o[1:o.index(']')]
            self.read(i, inner.split(':')[0] if inner.count(':') and '$' not in inner else inner)
            for x in ops[k + 1:]:
                self.read(i, x)
            if wb:
                self.write(i, split_ops(inner)[0])
            if re.match(r'^(st|vst)', base):
                i.store = True
                for x in ops[:k]:
                    self.read(i, x)
            elif re.match(r'^(ld|vld)', base):
                i.load = True
                for x in ops[:k]:
                    self.write(i, x)
                    if re.search(r'\[\d+\]', x):
                        i.insert = True
            else:
                i.unknown = 'memory operand of unknown instruction'
            return
        m = re.match(r'^v?(ld|st)m', base)
        if m:
            b = ops[0].rstrip('!')
            self.read(i, b)
            if ops[0].endswith('!'):
                self.write(i, b)
            if m[1] == 'ld':
                i.load = True
                for x in ops[1:]:
                    self.write(i, x)
            else:
                i.store = True
                for x in ops[1:]:
                    self.read(i, x)
            return
        if re.match(r'^v?(ldr|ldrd|ldrb|ldrh)', base):
            i.load = True
            for o in ops[:-1]:
                self.write(i, o)
            self.read(i, ops[-1])
            return
        if re.match(r'^v?str', base):
            i.store = True
            for o in ops:
                self.read(i, o)
            return
        if base in ('push', 'pop'):
            i.unknown = 'changes the stack pointer'
            return
        if not ops:
            i.unknown = 'no operands'
            return
        if base in ('vswp', 'vtrn', 'vzip', 'vuzp'):
            for o in ops:
                self.read(i, o)
                self.write(i, o)
            return
        if base == 'vmov' and len(ops) == 3 and not re.match(r'^[dq]', ops[0]):
            self.write(i, ops[0])
            self.write(i, ops[1])
            self.read(i, ops[2])
            return
        if base in ('umull', 'smull', 'umlal', 'smlal'):
            self.write(i, ops[0])
            self.write(i, ops[1])
            for o in ops[2:]:
                self.read(i, o)
            return
        for o in ops[1:]:
            self.read(i, o)
        if len(ops) == 3 and ops[1] == ops[2] and base in ('veor', 'eor', 'sub', 'vsub'):
            i.reads.clear()
        two = len(ops) == 2 and not re.match(r'^(v|mov|mvn|clz|rev|rbit|sxt|uxt)', base)
        self.write(i, ops[0])
        if re.search(r'\[\d+\]$', ops[0]):
            i.insert = True
        elif self.RMW.match(base) or two:
            self.read(i, ops[0])


class X86(Arch):
    name = 'x86'
    comment = re.compile(r'(//|#).*$')
    R = re.compile(r'%?\b(?:[re]?([abcd])x|([abcd])[lh]|[re]?([sd])il?|[re]?([bs])pl?|r(\d+)[dwb]?|([xyz])mm(\d+)|(k)(\d))\b')

    def regs(self, s):
        out = []
        for m in self.R.finditer(OPREF.sub('', s)):
            if m[1] or m[2]:
                out.append('r%sx' % (m[1] or m[2]))
            elif m[3]:
                out.append('r%si' % m[3])
            elif m[4]:
                out.append('r%sp' % m[4])
            elif m[5]:
                out.append('r' + m[5])
            elif m[6]:
                out.append('xmm' + m[7])
            else:
                out.append('k' + m[9])
        return out

    def canon_clobber(self, c):
        return set(self.regs(c))

    def ismem(self, o):
        return '(' in o

    def effects(self, i):
        mn, ops = i.mn, i.ops
        if mn[0] == '.':
            i.unknown = 'instruction given by its encoding'
            return
        if mn.startswith('j') or mn in ('loop', 'call', 'ret', 'callq'):
            if mn in ('call', 'ret', 'callq', 'loop'):
                i.unknown = 'call or return'
            i.target = ops[0] if ops else None
            i.cond = mn != 'jmp'
            i.rflags = i.cond
            i.jump = not i.cond
            return
        if mn.startswith(('prefetch', 'nop', 'pause', 'mfence', 'lfence', 'sfence')):
            return
        if mn in ('vzeroupper', 'vzeroall'):
            i.writes += ['xmm%d' % k for k in range(16)]
            return
        if mn in ('pushq', 'push', 'popq', 'pop', 'pushl', 'popl'):
            i.unknown = 'changes the stack pointer'
            return
        if mn in ('cpuid', 'rdtsc') or mn.startswith(('rep', 'mul', 'div', 'idiv', 'lods', 'stos')) or \
                (mn.startswith('imul') and len(ops) == 1):
            i.unknown = 'implicit operands'
            return
        if not ops:
            i.unknown = 'no operands'
            return
        for o in ops:
            if self.ismem(o):
                i.mems.append(o)
        i.flags = bool(re.match(r'^(cmp|test|add|sub|and|or|xor|inc|dec|neg|sh[lr]|sa[lr]|imul|adc|sbb|bt|ptest|vptest)', mn))
        i.rflags = mn.startswith(('cmov', 'set', 'adc', 'sbb'))
        nodest = bool(re.match(r'^(cmp[bwlq]?$|test|bt[wlq]?$|v?ptest|v?u?comis)', mn))
        dst = None if nodest else ops[-1]
        lea = mn.startswith('lea')
        for k, o in enumerate(ops):
            if self.ismem(o):
                i.reads += self.regs(o) + oprefs(o)
                if lea:
                    continue
                if k == len(ops) - 1 and not nodest:
                    i.store = True
                    if len(ops) == 1 or (len(ops) == 2 and not re.match(r'^v?p?mov|^vextract|^v?pextr', mn)):
                        i.load = True
                else:
                    i.load = True
            elif k < len(ops) - 1 or nodest:
                i.reads += self.regs(o) + oprefs(o)
        if dst is not None and not self.ismem(dst):
            w = self.regs(dst) + oprefs(dst)
            i.writes += w
            vex = mn.startswith('v')
            pure = re.match(r'^(v?p?mov|v?mov|lea|pshuf[dlh]|v|cvt|pabs|set|lddqu|movnt)', mn) and \
                not re.match(r'^vfn?m|^vpdp', mn)
            if mn.startswith('cmov'):
                pure = None
            if len(ops) == 2 and ops[0] == ops[1] and re.match(r'^(pxor|xor|sub|psub|pcmpeq|xorps)', mn):
                i.reads.clear()
            elif len(ops) == 3 and vex and ops[0] == ops[1] and re.match(r'^v(pxor|xorp|psub|pcmpeq)', mn):
                i.reads.clear()
            elif not pure:
                i.reads += w


class Mips(Arch):
    name = 'mips'
    comment = re.compile(r'(//).*$')
    R = re.compile(r'#?(?:\$)?\b(?:(a|t|s|v|k)(\d)|(w|f)(\d+)|(\d+)|(sp|fp|ra|gp|zero|at))\b')

    def regs(self, s):
        out = []
        for m in re.finditer(r'#(?:([atsvk])(\d)|(w|f)(\d+)|(\d+)|(sp|fp|ra|gp|at|zero))\b', s):
            if m[1]:
                out.append('r%d' % ({'a': 4, 'v': 2, 't': 8, 's': 16, 'k': 26}[m[1]] + int(m[2])))
            elif m[3]:
                out.append('w' + m[4])
            elif m[5]:
                if m[5] != '0':
                    out.append('r' + m[5])
            elif m[6] != 'zero':
                out.append(m[6])
        return out

    def canon_clobber(self, c):
        return set(self.regs('#' + c.lstrip('$').strip()))

    def effects(self, i):
        mn, ops = i.mn, i.ops
        if mn[0] == '.':
            i.unknown = 'instruction given by its encoding'
            return
        if re.match(r'^(b|j)$', mn) or re.match(r'^(beq|bne|bnez|beqz|blez|bgtz|bltz|bgez|bz|bnz)', mn):
            i.target = ops[-1]
            i.cond = mn not in ('b', 'j')
            i.jump = not i.cond
            for o in ops[:-1]:
                i.reads += self.regs(o) + oprefs(o)
            return
        if mn in ('jal', 'jalr', 'jr', 'bal'):
            i.unknown = 'call or indirect branch'
            return
        if mn.startswith(('pref', 'nop', 'sync')):
            return
        mem = [o for o in ops if '(' in o]
        if mem:
            i.mems += [m[m.rindex('('):] for m in mem]
            i.reads += [x for m in mem for x in self.regs(m) + oprefs(m)]
            if re.match(r'^(st|s[bhwd])', mn):
                i.store = True
                i.reads += self.regs(ops[0]) + oprefs(ops[0])
            elif re.match(r'^(ld|l[bhwd])', mn):
                i.load = True
                i.writes += self.regs(ops[0]) + oprefs(ops[0])
            else:
                i.unknown = 'memory operand of unknown instruction'
            return
        if not ops:
            i.unknown = 'no operands'
            return
        for o in ops[1:]:
            i.reads += self.regs(o) + oprefs(o)
        w = self.regs(ops[0]) + oprefs(ops[0])
        i.writes += w
        if re.match(r'^(dpadd|dpsub|maddv|msubv|insert|insve|sld|vshf|bmnz|bmz|bsel|binsl|binsr)', mn):
            i.reads += w


ARCH = [('mips', Mips()), ('aarch64', A64()), ('arm', A32()), ('thumb', A32()), ('x86_64', X86()), ('i', X86())]


def arch_of(triple):
    for p, a in ARCH:
        if triple.startswith(p):
            return a
    return None


LABEL = re.compile(r'^\s*((?:[\w.]|\$\{:uid\}|\$\{:private\})+)\s*:\s*')


class Asm:
    def __init__(self, template, constraints, arch):
        self.arch = arch
        self.template = template
        self.outs = []      # (constraint text, indirect)
        self.ins = []
        self.clob = set()
        self.raw_clob = []
        cs = split_ops(constraints)
        idx = 0
        self.cons = []
        for c in cs:
            if c.startswith('~'):
                self.raw_clob.append(c[2:-1])
            else:
                self.cons.append(c)
        for c in self.raw_clob:
            if c in ('memory', 'cc', 'flags', 'dirflag', 'fpsr'):
                self.clob.add(c)
            else:
                self.clob |= arch.canon_clobber(c)
        self.n_out = sum(1 for c in self.cons if c.startswith('='))
        self.tied = {}     # output index -> input index
        for k, c in enumerate(self.cons):
            if re.match(r'^\d+$', c):
                self.tied[int(c)] = k
        self.insts = []
        self.labels = {}
        pend = []
        for line in re.split(r'[\n;]', template):
            line = arch.comment.sub('', line).strip()
            while True:
                m = LABEL.match(line)
                if not m:
                    break
                pend.append(m[1])
                line = line[m.end():].strip()
            if not line:
                continue
            if line.startswith('.') and not re.match(r'\.(word|inst|long|4byte|byte|hword|short)\b', line):
                continue   # directive
            i = AsmInst(line)
            m = re.match(r'^(\S+)\s*(.*)$', line)
            i.mn = m[1].lower()
            i.ops = split_ops(m[2].replace('$$', '#'))
            i.labels = pend
            pend = []
            arch.effects(i)
            self.insts.append(i)
        self.trailing = pend
        self.all_labels = [l for i in self.insts for l in i.labels] + pend

    def out_cons(self, n):
        return self.cons[n]

    def is_output(self, n):
        return n < self.n_out

    def is_mem(self, n):
        c = self.cons[n]
        return '*' in c or ('m' in c.strip('=&*+') and 'r' not in c)

    def succ(self, k):
        """successor indices of instruction k (len = end)"""
        i = self.insts[k]
        out = []
        if not i.jump:
            out.append(k + 1)
        if i.target is not None:
            out.append(self.find(i.target, k))
        return out

    def find(self, t, k):
        m = re.match(r'^(\d+)([bf])$', t)
        if m:
            rng = range(k, -1, -1) if m[2] == 'b' else range(k + 1, len(self.insts))
            for j in rng:
                if m[1] in self.insts[j].labels:
                    return j
            if m[2] == 'f' and m[1] in self.trailing:
                return len(self.insts)
            return None
        for j, x in enumerate(self.insts):
            if t in x.labels:
                return j
        return len(self.insts) if t in self.trailing else None

    def provenance(self):
        """index -> register -> set of operand numbers its value may be computed
        from (general-purpose data flow only; loaded values have none)."""
        N = len(self.insts)
        state = {0: {}}
        work = [0] if N else []
        while work:
            k = work.pop()
            x = self.insts[k]
            s = dict(state[k])
            src = frozenset()
            if not x.load:
                for r in x.reads:
                    src |= self.origin(r, state[k])
            for w in x.writes:
                if x.load or x.store:
                    # write-back of the base register keeps its origin
                    if self.base_of(x) == w:
                        continue
                    s[w] = frozenset()
                else:
                    s[w] = src
            for t in self.succ(k):
                if t is None or t >= N:
                    continue
                if t not in state:
                    state[t] = dict(s)
                    work.append(t)
                else:
                    new = dict(state[t])
                    for r, v in s.items():
                        new[r] = new.get(r, frozenset([r[1]]) if isinstance(r, tuple) else frozenset()) | v
                    if new != state[t]:
                        state[t] = new
                        work.append(t)
        return state

    def origin(self, r, s):
        if r in s:
            return s[r]
        if isinstance(r, tuple):
            return frozenset([r[1]])
        return frozenset()

    def base_of(self, x):
        """base register or operand of the memory access"""
        if not x.mems:
            return None
        m = x.mems[0]
        inner = m[1:m.index(']')] if '[' in m else m[m.index('(') + 1:m.rindex(')')]
        first = split_ops(inner)[0] if inner else ''
        rs = self.arch.regs(first) + oprefs(first)
        return rs[0] if rs else None

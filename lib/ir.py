"""In-memory model of the normalised LLVM IR that tool/irtool prints.

Values are references as tuples:
  ('i', n) instruction   ('a', n) argument      ('c', int, bits) constant
  ('g', name) global     ('cg', ref, off) global+offset
  ('n',) null            ('u', ty) undef        others kept verbatim
"""
import json
import sys

sys.setrecursionlimit(20000)


def _tup(x):
    if isinstance(x, list):
        if x and x[0] == 'c' and len(x) == 3:
            return ('c', int(x[1]), x[2])
        return tuple(_tup(y) for y in x)
    return x


class Inst:
    __slots__ = ('fn', 'bb', 'idx', 'id', 'op', 't', 'ops', 'd', 'callee', 'dl')

    def __init__(self, fn, bb, idx, d, mod):
        self.fn = fn
        self.bb = bb
        self.idx = idx
        self.id = d['id']
        self.op = d['op']
        self.t = mod.strs[d['t']]
        self.ops = _tup(d['ops'])
        self.d = d
        self.callee = _tup(d['callee']) if 'callee' in d else None
        self.dl = d.get('dl', -1)

    @property
    def ref(self):
        return ('i', self.id)

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def ord(self):
        return self.d.get('ord')

    def callee_name(self):
        if self.callee and self.callee[0] == 'g':
            return self.callee[1]
        return None

    def is_call(self):
        return self.op in ('call', 'invoke')

    def is_asm(self):
        return self.callee is not None and self.callee[0] == 'asm'

    def is_indirect(self):
        return self.callee is not None and self.callee[0] not in ('g', 'asm')

    def loc(self):
        return self.fn.mod.loc_str(self.dl, self.fn)

    def scopes(self):
        return self.fn.mod.scopes(self.dl)

    def __repr__(self):
        return '%%%d=%s%s' % (self.id, self.op, list(self.ops))


class Block:
    __slots__ = ('fn', 'id', 'insts', 'succ', 'pred')

    def __init__(self, fn, i):
        self.fn = fn
        self.id = i
        self.insts = []
        self.succ = []
        self.pred = []

    @property
    def term(self):
        return self.insts[-1]

    def __repr__(self):
        return 'bb%d' % self.id


class Func:
    def __init__(self, mod, d):
        self.mod = mod
        self.d = d
        self.name = d['name']
        self.dem = d['dem']
        self.decl = d['decl'] or 'blocks' not in d
        self.args = d['args']
        self.blocks = []
        self.inst = {}
        self._dom = None
        self._pdom = None
        if not self.decl:
            for bi, ins in enumerate(d['blocks']):
                b = Block(self, bi)
                for k, x in enumerate(ins):
                    i = Inst(self, b, k, x, mod)
                    b.insts.append(i)
                    self.inst[i.id] = i
                self.blocks.append(b)
            for b in self.blocks:
                t = b.term
                s = []
                if t.op == 'br':
                    s = list(t.d['succ'])
                elif t.op == 'switch':
                    s = [c[1] for c in t.d['cases']] + [t.d['def']]
                elif t.op == 'invoke':
                    s = list(t.d['inv'])
                seen = set()
                for x in s:
                    if x not in seen:
                        seen.add(x)
                        b.succ.append(self.blocks[x])
                        self.blocks[x].pred.append(b)
        self.loops = d.get('loops', [])

    def all(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    def calls(self, *names):
        for i in self.all():
            if i.is_call() and i.callee_name() in names:
                yield i

    def val(self, ref):
        if ref[0] == 'i':
            return self.inst[ref[1]]
        return None

    # ---- CFG helpers -------------------------------------------------
    def dead_end(self, b):
        """Blocks that end the process (abort, failed assert, throw)."""
        return b.term.op == 'unreachable'

    def live_blocks(self):
        """Blocks from which a normal return (or a loop) is reachable, i.e.
        that are not doomed to abort."""
        rev = set()
        work = [b for b in self.blocks if b.term.op in ('ret', 'resume')]
        # infinite loops: treat blocks in cycles as live
        work += [b for b in self.blocks if self.in_cycle(b)]
        rev.update(work)
        while work:
            b = work.pop()
            for p in b.pred:
                if p not in rev:
                    rev.add(p)
                    work.append(p)
        return rev

    _cyc = None

    def in_cycle(self, b):
        if self._cyc is None:
            self._cyc = {}
            for scc in sccs(self.blocks, lambda x: x.succ):
                c = len(scc) > 1 or scc[0] in scc[0].succ
                for x in scc:
                    self._cyc[x] = frozenset(scc) if c else None
        return self._cyc[b]

    def rpo(self):
        seen = set()
        order = []

        def go(b):
            st = [(b, iter(b.succ))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(s.succ)))
                        break
                else:
                    order.append(x)
                    st.pop()
        go(self.blocks[0])
        return order[::-1]

    def dom(self):
        if self._dom is None:
            self._dom = dominators(self.rpo(), self.blocks[0], lambda b: b.pred)
        return self._dom

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.bb is b.bb:
            return a.idx < b.idx
        return a.bb in self.dom().get(b.bb, ())

    def reach(self, src, stop=None, include_src=False):
        """set of instructions that may execute after src; stop(inst) cuts."""
        out = set()
        work = []

        def scan(b, k):
            for i in b.insts[k:]:
                out.add(i)
                if stop and stop(i):
                    return
            for s in b.succ:
                work.append(s)
        seen = set()
        scan(src.bb, src.idx + (0 if include_src else 1))
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            scan(b, 0)
        return out


def sccs(nodes, succ):
    idx = {}
    low = {}
    onst = set()
    st = []
    out = []
    n = [0]
    for r in nodes:
        if r in idx:
            continue
        call = [(r, iter(succ(r)))]
        idx[r] = low[r] = n[0]
        n[0] += 1
        st.append(r)
        onst.add(r)
        while call:
            v, it = call[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    onst.add(w)
                    call.append((w, iter(succ(w))))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            call.pop()
            if call:
                u = call[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w is v:
                        break
                out.append(comp)
    return out


def dominators(order, entry, pred):
    pos = {b: k for k, b in enumerate(order)}
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in order:
            if b is entry:
                continue
            new = None
            for p in pred(b):
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while pos[x] > pos[y]:
                                x = idom[x]
                            while pos[y] > pos[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) is not new:
                idom[b] = new
                changed = True
    res = {}
    for b in order:
        s = {b}
        x = b
        while x in idom and idom[x] is not x:
            x = idom[x]
            s.add(x)
        res[b] = s
    return res


class Module:
    def __init__(self, d):
        self.strs = d['strs']
        self.locs = d['locs']
        self.types = d['types']
        self.triple = d['triple']
        self.ptrsize = d['ptrsize']
        self.funcs = {}
        for f in d['funcs']:
            self.funcs[f['name']] = Func(self, f)
        self.globals = {g['name']: g for g in d['globals']}
        for g in self.globals.values():
            if 'init' in g:
                g['init'] = _tup(g['init'])
            if 'start' in g:
                g['start'] = _tup(g['start'])

    @staticmethod
    def load(path):
        with open(path, errors='replace') as f:
            return Module(json.load(f))

    def defined(self):
        return [f for f in self.funcs.values() if not f.decl]

    def loc_str(self, dl, fn=None):
        if dl is None or dl < 0:
            if fn is not None and 'file' in fn.d:
                return '%s:%d' % (short(fn.d['file']), fn.d.get('line', 0))
            return '?'
        f, l, s, up = self.locs[dl]
        return '%s:%d' % (short(self.strs[f]), l)

    def repo_loc(self, dl):
        """innermost location that lies in the repository (not libstdc++)"""
        while dl is not None and dl >= 0:
            f, l, s, up = self.locs[dl]
            p = self.strs[f]
            if '/usr/' not in p:
                return '%s:%d' % (short(p), l)
            dl = up
        return '?'

    def scopes(self, dl):
        out = []
        while dl is not None and dl >= 0:
            f, l, s, up = self.locs[dl]
            out.append(self.strs[s])
            dl = up
        return out

    def vtable(self, cls_mangled):
        g = self.globals.get('_ZTV' + cls_mangled)
        return g

    def vtables(self):
        """name -> list of slot references (after offset-to-top and RTTI)"""
        out = {}
        for n, g in self.globals.items():
            if n.startswith('_ZTV') and 'init' in g:
                init = g['init']
                if init[0] == 'cv' and init[1] and init[1][0][0] == 'cv':
                    slots = init[1][0][1]
                    out[n] = list(slots[2:])
        return out

    def type(self, name):
        return self.types.get(name)

    def field(self, cls, name):
        """(offset,size,type) of a data member, looked up through debug info"""
        t = self.types.get(cls)
        if not t:
            return None
        for m in t.get('members', []):
            if m[0] == name:
                return m[1], m[2], m[3]
        for b, off in t.get('bases', []):
            r = self.field(b, name)
            if r:
                return off + r[0], r[1], r[2]
        return None


def short(p):
    for pre in ('/repo/', '/verif/'):
        k = p.find(pre)
        if k >= 0:
            p = p[k + len(pre):]
    parts = []
    for x in p.split('/'):
        if x == '..' and parts and parts[-1] != '..':
            parts.pop()
        elif x not in ('', '.'):
            parts.append(x)
    return '/'.join(parts)


# ---- addresses and access paths ------------------------------------------
class Paths:
    """Access paths: where a pointer comes from.

    base(v)  -> (root, off, var)  root: reference of a non-address SSA value,
                off: constant byte offset, var: True when a variable index was
                added on the way.
    path(v)  -> canonical, hashable access path of the *value* v:
                ('arg',n) ('glob',name) ('alloca',id) ('call',id)
                ('ld', path, off, var)    value loaded from [path+off]
                ('phi', frozenset(paths)) ('null',) ('const',k) ('?',id)
    """

    def __init__(self, fn):
        self.fn = fn
        self._base = {}
        self._path = {}

    def base(self, ref):
        if ref in self._base:
            return self._base[ref]
        off, var = 0, False
        r = ref
        seen = set()
        while True:
            if r in seen:
                break
            seen.add(r)
            if r[0] == 'i':
                i = self.fn.inst[r[1]]
                if i.op == 'getelementptr':
                    off += i.d.get('off', 0)
                    if i.d.get('var'):
                        var = True
                    r = i.ops[0]
                    continue
                if i.op in ('bitcast', 'addrspacecast', 'freeze'):
                    r = i.ops[0]
                    continue
                if i.op in ('ptrtoint', 'inttoptr'):
                    r = i.ops[0]
                    continue
                if i.op == 'add' and self._ptrint(r):
                    a, b = i.ops
                    p, q = (a, b) if self._ptrint(a) else (b, a)
                    if q[0] == 'c':
                        off += q[1]
                    else:
                        var = True
                    r = p
                    continue
                if i.op in ('and', 'or') and self._ptrint(r):
                    a, b = i.ops
                    r = a if self._ptrint(a) else b
                    var = True
                    continue
            elif r[0] == 'cg':
                off += r[2]
                r = r[1]
                continue
            break
        self._base[ref] = (r, off, var)
        return self._base[ref]

    def _ptrint(self, ref, depth=0):
        """integer derived from a pointer by ptrtoint and arithmetic"""
        if depth > 8 or ref[0] != 'i':
            return False
        i = self.fn.inst[ref[1]]
        if i.op == 'ptrtoint':
            return True
        if i.op in ('add', 'and', 'or'):
            return any(self._ptrint(o, depth + 1) for o in i.ops)
        return False

    def path(self, ref, stack=()):
        if ref in self._path:
            return self._path[ref]
        root, off, var = self.base(ref)
        p = self._root(root, stack)
        if off or var:
            p = self._add(p, off, var)
        if not stack:
            self._path[ref] = p
        return p

    @staticmethod
    def _add(p, off, var):
        if p[0] == 'off':
            return ('off', p[1], p[2] + off, p[3] or var)
        if p[0] == 'phi':
            return ('phi', frozenset(Paths._add(x, off, var) for x in p[1]))
        return ('off', p, off, var)

    def _root(self, r, stack):
        k = r[0]
        if k == 'a':
            return ('arg', r[1])
        if k == 'g':
            return ('glob', r[1])
        if k == 'n':
            return ('null',)
        if k == 'c':
            return ('const', r[1])
        if k == 'u':
            return ('undef',)
        if k != 'i':
            return ('?', r)
        i = self.fn.inst[r[1]]
        if i.op == 'alloca':
            return ('alloca', i.id)
        if i.op == 'load':
            if r in stack or len(stack) > 60:
                return ('cyc',)
            a = self.path(i.ops[0], stack + (r,))
            if a[0] == 'phi':
                return ('phi', frozenset(self._ld(x) for x in a[1]))
            return self._ld(a)
        if i.op in ('phi', 'select'):
            if r in stack or len(stack) > 60:
                return ('cyc',)
            ins = [o[0] for o in i.ops] if i.op == 'phi' else list(i.ops[1:])
            s = set()
            for x in ins:
                p = self.path(x, stack + (r,))
                for q in (p[1] if p[0] == 'phi' else (p,)):
                    while q[0] == 'off' and q[1] == ('cyc',):
                        # loop-carried pointer bump: p = phi(init, p+k)
                        q = ('bump',)
                    s.add(q)
            s.discard(('cyc',))
            if ('bump',) in s:
                s.discard(('bump',))
                s = {self._add(q, 0, True) if q[0] != 'null' else q for q in s}
            if len(s) == 1:
                return next(iter(s))
            return ('phi', frozenset(s))
        if i.is_call():
            return ('call', i.id)
        return ('?', i.id)

    @staticmethod
    def _ld(a):
        if a[0] == 'off':
            return ('ld', a[1], a[2], a[3])
        return ('ld', a, 0, False)

    def loc(self, ref):
        """location = (path of base pointer, offset, var)"""
        p = self.path(ref)
        if p[0] == 'off':
            return (p[1], p[2], p[3])
        return (p, 0, False)


def alts(p):
    return tuple(p[1]) if p[0] == 'phi' else (p,)


def show(p):
    k = p[0]
    if k == 'arg':
        return 'arg%d' % p[1]
    if k == 'glob':
        return '@' + p[1]
    if k == 'off':
        return '%s+%d%s' % (show(p[1]), p[2], '+i' if p[3] else '')
    if k == 'ld':
        return '*(%s+%d%s)' % (show(p[1]), p[2], '+i' if p[3] else '')
    if k == 'phi':
        return '{' + ' | '.join(sorted(show(x) for x in p[1])) + '}'
    return str(p)


# ---- forward must/may dataflow over instructions ---------------------------
def forward(fn, init, transfer, join, edge=None):
    """Generic forward dataflow.  Returns (state before each inst)."""
    inb = {fn.blocks[0]: init}
    before = {}
    work = [fn.blocks[0]]
    n = 0
    while work:
        b = work.pop(0)
        n += 1
        if n > 20000:
            raise RuntimeError('dataflow did not converge in ' + fn.dem)
        s = inb[b]
        for i in b.insts:
            before[i.id] = s
            s = transfer(i, s)
        for t in b.succ:
            s2 = edge(b, t, s) if edge else s
            if s2 is None:
                continue
            if t not in inb:
                inb[t] = s2
                work.append(t)
            else:
                j = join(inb[t], s2)
                if j != inb[t]:
                    inb[t] = j
                    if t not in work:
                        work.append(t)
    return before


def must_pass(fn, start, is_goal, is_exit):
    """True iff on every path from just after `start` a goal instruction comes
    before any exit instruction; aborting paths do not count.  Returns None or
    the offending exit instruction."""
    seen = set()
    work = [(start.bb, start.idx + 1)]
    while work:
        b, k = work.pop()
        done = False
        for i in b.insts[k:]:
            if is_goal(i):
                done = True
                break
            if is_exit(i):
                return i
        if done:
            continue
        for s in b.succ:
            if s not in seen:
                seen.add(s)
                work.append((s, 0))
    return None


def must_precede(fn, target, is_goal, is_stop=lambda i: False):
    """True iff on every path from function entry to `target`, a goal
    instruction occurs with no later stop instruction before target.
    Walks backwards; returns None if OK else a witness."""
    seen = set()
    work = [(target.bb, target.idx - 1)]
    while work:
        b, k = work.pop()
        hit = False
        for j in range(k, -1, -1):
            i = b.insts[j]
            if is_goal(i):
                hit = True
                break
            if is_stop(i):
                return i
        if hit:
            continue
        if b is fn.blocks[0]:
            return b.insts[0]
        for p in b.pred:
            if p not in seen:
                seen.add(p)
                work.append((p, len(p.insts) - 1))
    return None

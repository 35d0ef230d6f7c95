"""Worker-pool synchronisation: data races (P05), lost wake-ups (P06), thread
lifetime (P07), every task exactly once before Execute returns (P08)."""
from fractions import Fraction

import build
import lin
from ir import Paths, alts, forward, must_pass, must_precede, show

TRUST = ['clang 18 front end and the LLVM always-inline/SROA/instcombine passes used to '
         'normalise the code', 'tool/irtool.cpp, lib/ir.py, lib/lin.py and this rule set',
         'POSIX semantics of pthread_* and the C++11 memory model']

LOCK = ('pthread_mutex_lock',)
UNLOCK = ('pthread_mutex_unlock',)
WAIT = ('pthread_cond_wait', 'pthread_cond_timedwait')
SIGNAL = ('pthread_cond_broadcast', 'pthread_cond_signal')
PTHREAD = ('pthread_',)
ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')
SIZES = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': None, 'float': 4, 'double': 8}


def locstr(loc):
    p, o, v = loc
    return '%s+%d%s' % (show(p), o, '+i' if v else '')


class F:
    """A flattened function with its access paths and locksets."""

    def __init__(self, fn):
        self.fn = fn
        self.P = Paths(fn)
        self._locks = None
        self._lin = None

    @property
    def L(self):
        if self._lin is None:
            self._lin = lin.Linear(self.fn, self.P)
        return self._lin

    def locks(self):
        """inst id -> (must, may) frozensets of mutex locations held before it"""
        if self._locks is None:
            P = self.P

            def tr(i, s):
                if i.is_call():
                    n = i.callee_name()
                    if n in LOCK:
                        m = P.loc(i.ops[0])
                        return (s[0] | {m}, s[1] | {m})
                    if n in UNLOCK:
                        m = P.loc(i.ops[0])
                        return (s[0] - {m}, s[1] - {m})
                return s
            self._locks = forward(self.fn, (frozenset(), frozenset()), tr,
                                  lambda a, b: (a[0] & b[0], a[1] | b[1]))
        return self._locks

    def held(self, i):
        return self.locks().get(i.id, (frozenset(), frozenset()))[0]

    def accesses(self):
        """(inst, location, 'r'|'w'|'rw', atomic, size)"""
        for i in self.fn.all():
            if i.op == 'load':
                ref, k = i.ops[0], 'r'
            elif i.op == 'store':
                ref, k = i.ops[1], 'w'
            elif i.op in ('atomicrmw', 'cmpxchg'):
                ref, k = i.ops[0], 'rw'
            elif i.is_call() and (i.callee_name() or '').startswith(('llvm.memcpy', 'llvm.memmove',
                                                                     'llvm.memset')):
                sz = i.ops[2][1] if i.ops[2][0] == 'c' else None
                for p in alts(self.P.path(i.ops[0])):
                    yield i, split(p), 'w', False, sz
                if 'memset' not in i.callee_name():
                    for p in alts(self.P.path(i.ops[1])):
                        yield i, split(p), 'r', False, sz
                continue
            else:
                continue
            atomic = i.ord is not None and i.ord not in ('not_atomic', 'unordered')
            t = i.t if i.op == 'load' else None
            for p in alts(self.P.path(ref)):
                yield i, split(p), k, atomic, self.size(i)

    def size(self, i):
        st = self.fn.mod.ptrsize
        st = st // 8 if st > 16 else st
        t = i.t if i.op == 'load' else None
        if i.op == 'store':
            v = i.ops[0]
            if v[0] == 'c':
                return max(1, v[2] // 8)
            if v[0] == 'i':
                t = self.fn.inst[v[1]].t
            else:
                t = 'ptr'
        if i.op == 'atomicrmw':
            t = i.t
        s = SIZES.get(t, 1) if t in SIZES else 8
        return st if s is None else s


def split(p):
    return (p[1], p[2], p[3]) if p[0] == 'off' else (p, 0, False)


class Unit:
    def __init__(self, rep, cfg, ndebug):
        self.m = build.module('sync.cc', cfg, ndebug=ndebug)
        self.name = self.m.cfg
        rep.units.add('drivers/sync.cc@' + self.name)
        self.f = {n: F(fn) for n, fn in self.m.funcs.items() if not fn.decl}
        for n, x in self.f.items():
            rep.functions.add(x.fn.dem)
        self.creates = []
        entries = set()
        for n, x in self.f.items():
            for c in x.fn.calls('pthread_create'):
                self.creates.append((x, c))
                if c.ops[2][0] == 'g':
                    entries.add(c.ops[2][1])
        if not self.creates or not entries:
            raise build.AnalysisBroken('no pthread_create with a known entry function found in '
                                       'the worker pool')
        self.entries = [self.f[e] for e in sorted(entries)]
        self.T = self.entries[0]
        if len(self.entries) != 1:
            raise build.AnalysisBroken('several thread entry functions: %s' % sorted(entries))
        # offsets of the object shared with the thread
        self.obj = ('arg', 0)
        self.analyse_thread()

    def analyse_thread(self):
        T = self.T
        fn, P = T.fn, T.P
        self.waits = list(fn.calls(*WAIT))
        self.mutexes = {P.loc(c.ops[0]) for c in fn.calls(*LOCK)}
        self.mutex_off = {m[1] for m in self.mutexes if m[0] == self.obj}
        # tasks run: indirect calls whose function pointer comes from the
        # vtable of an object loaded from the shared object
        self.runs = []
        for i in fn.all():
            if i.is_call() and i.is_indirect() and i.ops:
                for p in alts(P.path(i.ops[0])):
                    if p[0] == 'ld' and p[1] == self.obj:
                        self.runs.append((i, p[2]))
        if not self.runs:
            raise build.AnalysisBroken('the worker thread function never runs a task obtained '
                                       'from its worker object')
        self.task_offs = sorted({o for _, o in self.runs})
        # counter: atomic operation on a pointer loaded from the object
        self.counter_ptr = set()
        self.decs = []
        for i, loc, k, at, sz in T.accesses():
            b = loc[0]
            if b[0] == 'ld' and b[1] == self.obj and b[2] not in self.task_offs and 'w' in k:
                self.counter_ptr.add((b[2], loc[1]))
                self.decs.append(i)
        # predicate locations the waiting loop tests
        self.pred = {}
        for w in self.waits:
            self.pred[w.id] = self.wait_predicate(w)

    def wait_predicate(self, w):
        """Locations whose loads decide whether the loop around cond_wait w is
        left.  None when w is not in a loop."""
        fn = self.T.fn
        scc = fn.in_cycle(w.bb)
        if not scc:
            return None
        # the smallest cycle through w: blocks on paths w -> w without
        # releasing the mutex
        rel = self.T.P.loc(w.ops[1])
        loop = self.cycle(w, lambda i: i.is_call() and i.callee_name() in UNLOCK and
                          self.T.P.loc(i.ops[0]) == rel)
        if not loop:
            return None
        leaves = set()
        live = fn.live_blocks()
        for b in loop:
            out = [s for s in b.succ if s not in loop and s in live]
            if out and b.term.ops:
                leaves |= self.leaves(b.term.ops[0])
        return leaves

    def cycle(self, w, cut):
        """blocks lying on some cycle through w on which no `cut` occurs"""
        fn = self.T.fn

        def go(start, nxt, first):
            seen = set()
            work = list(first)
            while work:
                b = work.pop()
                if b in seen:
                    continue
                seen.add(b)
                if b is w.bb:
                    continue
                if any(cut(i) for i in b.insts):
                    continue
                work += nxt(b)
            return seen
        if any(cut(i) for i in w.bb.insts):
            return set()
        fw = go(w, lambda b: b.succ, w.bb.succ)
        bw = go(w, lambda b: b.pred, w.bb.pred)
        if w.bb not in fw:
            return set()
        return {b for b in (fw & bw) if not any(cut(i) for i in b.insts)} | {w.bb}

    def leaves(self, ref, seen=None):
        """memory loads a value depends on (through arithmetic and phis)"""
        seen = seen if seen is not None else set()
        if ref in seen or ref[0] != 'i':
            return set()
        seen.add(ref)
        i = self.T.fn.inst[ref[1]]
        if i.op in ('load', 'atomicrmw', 'cmpxchg'):
            return {i}
        if i.is_call():
            return {i}
        out = set()
        for o in i.ops:
            o = o[0] if i.op == 'phi' else o
            out |= self.leaves(o, seen)
        return out

    # ---- main-thread side --------------------------------------------------
    def main_functions(self):
        return [x for n, x in self.f.items() if x is not self.T]

    def worker_bases(self, x):
        """paths that denote a Worker object in a main-side function, with the
        pthread_create/pthread_join calls on it"""
        out = set()
        for c in x.fn.calls('pthread_create'):
            for p in alts(x.P.path(c.ops[3])):
                out.add(p)
        for c in list(x.fn.calls(*LOCK)):
            for p in alts(x.P.path(c.ops[0])):
                b, o, v = split(p)
                if o in self.mutex_off and not v:
                    out.add(b)
        tid = {x2.P.loc(c.ops[0])[1] for x2, c in self.creates}
        for c in x.fn.calls('pthread_join'):
            p = x.P.path(c.ops[0])
            if p[0] == 'ld' and p[2] in tid:
                out.add(p[1])
        out.discard(('null',))
        return out


_units = {}


def units(rep, tier):
    confs = [('x86', False), ('x86', True), ('aarch64', True)]
    if tier == 'thorough':
        confs = [(c, n) for c in build.ALL for n in (False, True)]
    return [Unit(rep, c, n) for c, n in confs]


def overlap(a, sa, b, sb):
    if sa is None or sb is None:
        return True
    return a < b + sb and b < a + sa


# ---------------------------------------------------------------------------
def check_races(rep, tier):
    rep.rule('race', 'two accesses to the same bytes of a Worker from its thread and from the '
             'controlling thread, one of them a write, are both atomic, or hold the worker\'s '
             'mutex, or are ordered by thread creation/join')
    rep.rule('task-publish', 'the controlling thread writes a task only before it has handed it '
             'over (before the worker\'s mutex is released after the task pointer is stored)')
    rep.rule('done-release', 'a worker\'s completion count is an atomic read-modify-write with '
             'release ordering')
    rep.rule('done-acquire', 'the load of the completion count that ends the wait for workers has '
             'acquire ordering (or an acquire fence follows)')
    rep.rule('counter-atomic', 'every access to the completion count is atomic')
    for u in units(rep, tier):
        T = u.T
        side_t = [(i, loc, k, at, sz) for i, loc, k, at, sz in T.accesses() if loc[0] == u.obj]
        rep.stat('thread-side accesses', len(side_t))
        for x in u.main_functions():
            fn = x.fn
            bases = u.worker_bases(x)
            creates = list(fn.calls('pthread_create'))
            joins = list(fn.calls('pthread_join'))
            for b in bases:
                acc = [(i, loc, k, at, sz) for i, loc, k, at, sz in x.accesses() if loc[0] == b]
                # pthread_create writes the thread id, possibly after the
                # thread has started
                for c in creates:
                    l = x.P.loc(c.ops[0])
                    if l[0] == b:
                        acc.append((c, l, 'w', False, 8))
                for i, loc, k, at, sz in acc:
                    phase = 'concurrent'
                    if i.op != 'call' and any(fn.dominates(i, c) and b in alts(x.P.path(c.ops[3]))
                                              for c in creates):
                        phase = 'before-create'
                    if any(fn.dominates(j, i) for j in joins if joined(x, j, b)):
                        phase = 'after-join'
                    if phase != 'concurrent':
                        rep.ok('race')
                        continue
                    hm = {o for (bb, o, v) in x.held(i) if bb == b}
                    for ti, tl, tk, tat, tsz in side_t:
                        if 'w' not in k and 'w' not in tk:
                            continue
                        if not overlap(loc[1], sz, tl[1], tsz) and not (loc[2] or tl[2]):
                            continue
                        if at and tat:
                            rep.ok('race')
                            continue
                        ht = {o for (bb, o, v) in T.held(ti) if bb == u.obj}
                        rep.check('race', hm & ht, 'Worker+%d %s vs %s' % (
                            loc[1], fn.name, T.fn.dem), fn.mod.repo_loc(i.dl),
                            'worker field at offset %d is accessed here (%s, locks %s) and by the '
                            'worker thread at %s (%s, locks %s) with no common lock' % (
                                loc[1], k, sorted(hm) or 'none', T.fn.mod.repo_loc(ti.dl), tk,
                                sorted(ht) or 'none'), u.name)
        # task object writes
        for x in u.main_functions():
            fn = x.fn
            for st in handoffs(u, x):
                v = st.ops[0]
                root = x.P.base(v)
                for i in fn.all():
                    if i.op == 'store' and i is not st:
                        r = x.P.base(i.ops[1])
                        if r[0] == root[0] and root[0][0] in ('i', 'a') and not r[2] and not root[2] \
                                and not is_object_field(x, i, u):
                            late = late_write(x, st, i)
                            rep.check('task-publish', not late, 'task write %s' % fn.name,
                                      fn.mod.repo_loc(i.dl),
                                      'the task is written after it was handed to the worker '
                                      'thread and the mutex released', u.name)
                    elif i.op == 'store' and i.ops[1][0] == 'i' and v[0] == 'i':
                        r = x.P.base(i.ops[1])
                        if r[0] == x.P.base(v)[0] and gep_of(x, i.ops[1], v):
                            late = late_write(x, st, i)
                            rep.check('task-publish', not late, 'task write %s' % fn.name,
                                      fn.mod.repo_loc(i.dl),
                                      'the task is written after it was handed to the worker '
                                      'thread and the mutex released', u.name)
        # completion counter
        if not u.decs:
            rep.bad('done-release', 'worker completion ' + T.fn.dem, T.fn.mod.repo_loc(
                u.runs[0][0].dl), 'the worker thread never updates the completion count', u.name)
        for i in u.decs:
            ok = i.op in ('atomicrmw', 'cmpxchg') and i.ord in REL
            if i.op in ('atomicrmw', 'cmpxchg') and not ok:
                # a release fence right before also orders
                ok = must_precede(T.fn, i, lambda j: j.op == 'fence' and j.ord in REL,
                                  lambda j: j.is_call() and j.is_indirect()) is None
            what = 'ordering %s' % i.ord if i.op in ('atomicrmw', 'cmpxchg') else \
                'a %s, not an atomic read-modify-write' % i.op
            rep.check('done-release', ok, 'completion count update in %s' % T.fn.dem,
                      T.fn.mod.repo_loc(i.dl), 'the completion count is updated with %s' % what,
                      u.name)
        for x in u.main_functions():
            for i, loc, k, at, sz in counter_accesses(u, x):
                if x.fn.name in ('vp_pool_construct',):
                    continue
                rep.check('counter-atomic', at, 'counter access %s' % x.fn.name,
                          x.fn.mod.repo_loc(i.dl), 'non-atomic access to the completion count',
                          u.name)
            pend = pending(u, x)
            for i, edge in wait_exits(u, x):
                if 'pending' not in pend.get(edge[0].term.id, ()) and x.fn.name != 'vp_counter_wait':
                    continue
                ok = i.ord in ACQ or fence_after(x, i, edge)
                rep.check('done-acquire', ok, 'wait load %s' % x.fn.name, x.fn.mod.repo_loc(i.dl),
                          'the load that observes completion of the workers has ordering %s'
                          % (i.ord or 'plain'), u.name)
    rep.notes.append('a field is identified by its byte offset in the object passed to '
                     'pthread_create; array-element aliasing is by access path')
    return TRUST


def gep_of(x, ref, v):
    """ref = v + constant"""
    r = ref
    while r != v and r[0] == 'i':
        i = x.fn.inst[r[1]]
        if i.op == 'getelementptr' and not i.d.get('var'):
            r = i.ops[0]
        else:
            return False
    return r == v


def is_object_field(x, i, u):
    """store into a worker object rather than into a task"""
    p = x.P.path(i.ops[1])
    return any(split(q)[0] in u.worker_bases(x) for q in alts(p))


def late_write(x, handoff, write):
    """write may execute after handoff with the lock released in between
    (without the task pointer being handed again)"""
    fn = x.fn
    root = x.P.base(handoff.ops[0])[0]   # another task once this is recomputed
    if root[0] == 'i' and fn.inst[root[1]].op != 'load':
        root = None
    v = handoff.ops[0]
    if root is None and v[0] == 'i':
        root = v
    seen = set()
    work = [(handoff.bb, handoff.idx + 1, False)]
    while work:
        b, k, rel = work.pop()
        stop = False
        for i in b.insts[k:]:
            if i is write and rel:
                return True
            if i is handoff or ('i', i.id) == root:
                stop = True
                break
            if i.is_call() and i.callee_name() in UNLOCK:
                rel = True
        if stop:
            continue
        for s in b.succ:
            if (s, rel) not in seen:
                seen.add((s, rel))
                work.append((s, 0, rel))
    return False


def joined(x, j, base):
    p = x.P.path(j.ops[0])
    return p[0] == 'ld' and p[1] == base


def handoffs(u, x):
    """stores of a non-null task pointer into a worker's task field"""
    bases = u.worker_bases(x)
    out = []
    for i, loc, k, at, sz in x.accesses():
        if i.op == 'store' and loc[0] in bases and loc[1] in u.task_offs and not loc[2] and \
                i.ops[0][0] != 'n' and i not in out:
            out.append(i)
    return out


def counter_locs(u, x):
    """paths of the completion counter in a main-side function: what is stored
    into the worker's counter pointer, what vp_counter_* roots get, or (for
    functions that create no worker) the location the pool functions use"""
    out = set()
    name = x.fn.name
    if name.startswith('vp_counter_'):
        out.add((('arg', 0), 0, False))
        return out
    if name.startswith('vp_worker_'):
        return out
    offs = {o for o, _ in u.counter_ptr}
    for y in u.main_functions():
        for c in y.fn.calls('pthread_create'):
            base = alts(y.P.path(c.ops[3]))
            for i, loc, k, at, sz in y.accesses():
                if i.op == 'store' and loc[0] in base and loc[1] in offs:
                    for p in alts(y.P.path(i.ops[0])):
                        l = split(p)
                        if l[0][0] == 'arg' and y.fn.name.startswith('vp_pool_'):
                            out.add((l[0], l[1] + max(o for _, o in u.counter_ptr), l[2]))
    return out


def counter_accesses(u, x):
    cl = counter_locs(u, x)
    for t in x.accesses():
        if t[1] in cl:
            yield t


def wait_exits(u, x):
    """(load, (block, succ)) for each CFG edge taken only when a load of the
    completion count returned 0"""
    cl = counter_locs(u, x)
    fn = x.fn
    out = []
    for b in fn.blocks:
        t = b.term
        if t.op == 'br' and len(t.ops) == 1 and t.ops[0][0] == 'i':
            c = fn.inst[t.ops[0][1]]
            ts, fs = t.d['succ'][0], t.d['succ'][1]
            while c.op == 'xor' and c.ops[0][0] == 'i':
                ts, fs = fs, ts
                c = fn.inst[c.ops[0][1]]
            if c.op != 'icmp':
                continue
            a, z = c.ops[0], c.ops[1]
            if a[0] == 'c':
                a, z = z, a
            if a[0] != 'i' or z[0] != 'c':
                continue
            loads = []
            if not zero_phi(fn, a, loads):
                continue
            if not all(x.P.loc(l.ops[0]) in cl for l in loads) or not loads:
                continue
            pr = c.get('pred')
            if z[1] == 0 and pr in ('eq', 'ule', 'ne', 'ugt', 'uge', 'ult'):
                succ = ts if pr in ('eq', 'ule') else fs if pr in ('ne', 'ugt') else None
            elif z[1] == 1 and pr in ('ult', 'uge'):
                succ = ts if pr == 'ult' else fs
            else:
                succ = None
            if succ is not None:
                for l in loads:
                    out.append((l, (b, fn.blocks[succ])))
        elif t.op == 'switch' and t.ops[0][0] == 'i':
            loads = []
            if zero_phi(fn, t.ops[0], loads) and loads and \
                    all(x.P.loc(l.ops[0]) in cl for l in loads):
                for v, s in t.d['cases']:
                    if v == 0:
                        for l in loads:
                            out.append((l, (b, fn.blocks[s])))
    return out


def zero_phi(fn, ref, out, seen=None):
    seen = seen if seen is not None else set()
    if ref in seen:
        return True
    seen.add(ref)
    if ref[0] != 'i':
        return False
    i = fn.inst[ref[1]]
    if i.op == 'load':
        out.append(i)
        return True
    if i.op == 'phi':
        return all(zero_phi(fn, o[0], out, seen) for o in i.ops)
    if i.op in ('zext', 'sext', 'freeze'):
        return zero_phi(fn, i.ops[0], out, seen)
    return False


def fence_after(x, load, edge):
    b, s = edge
    for i in s.insts:
        if i.op == 'fence' and i.ord in ACQ:
            return True
        if i.op in ('load', 'store', 'call', 'ret'):
            return False
    return False


def none_handed(u, x):
    """CFG edges taken only when the hand-off loop's iteration count is 0"""
    fn = x.fn
    out = set()
    counts = []
    for h in handoffs(u, x):
        lps = [l for l in fn.loops if h.bb.id in l['blocks']]
        if not lps:
            return out
        n = x.L.runs(min(lps, key=lambda l: len(l['blocks'])), h)
        if n is None:
            return out
        counts.append((h, n))
    if len(counts) != 1:
        return out
    h, n = counts[0]
    for b in fn.blocks:
        t = b.term
        if t.op != 'br' or not t.ops or t.ops[0][0] != 'i' or len(b.succ) != 2:
            continue
        if h.bb is b or h.bb not in fn.dom().get(b, ()) and not reaches(fn, h.bb, b):
            continue
        c = fn.inst[t.ops[0][1]]
        if c.op != 'icmp':
            continue
        d = lin.add(x.L.ref(c.ops[0]), x.L.ref(c.ops[1]), -1)
        for k in (0, 1):
            p = c.get('pred') if k == 0 else lin.NEG[c.get('pred')]
            p2 = p.lstrip('us') if p not in ('eq', 'ne') else p
            # d = s*(n - e)
            for s in (1, -1):
                e = lin.is_const(lin.add(n, lin.scale(d, s), -1))
                if e is None:
                    continue
                q = p2 if s == 1 else {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p2, p2)
                # q relates n to e
                if (q == 'eq' and e == 0) or (q == 'le' and e <= 0) or (q == 'lt' and e <= 1):
                    out.add((b.id, t.d['succ'][k]))
    return out


def reaches(fn, a, b):
    seen = set()
    work = [a]
    while work:
        q = work.pop()
        if q is b:
            return True
        if q in seen:
            continue
        seen.add(q)
        work += q.succ
    return False


def pending(u, x):
    """inst id -> subset of {idle, armed, pending} before it: whether workers
    may be running since the completion count was last seen to be zero"""
    fn = x.fn
    cl = counter_locs(u, x)
    hid = {i.id for i in handoffs(u, x)}
    cid = {c.id for c in fn.calls('pthread_create')}
    rid = {i.id for i, loc, k, at, sz in x.accesses() if 'w' in k and loc in cl}
    exits = {(e[0].id, e[1].id) for _, e in wait_exits(u, x)}

    def tr(i, s):
        if i.id in rid:
            return frozenset(['armed'])
        if i.id in hid or i.id in cid:
            return frozenset(['pending'])
        return s

    zero = none_handed(u, x)

    def edge(b, t, s):
        if (b.id, t.id) in exits:
            return frozenset(['idle'])
        if (b.id, t.id) in zero:
            # no task was handed over on this edge
            return frozenset(['idle'])
        return s
    return forward(fn, frozenset(['idle']), tr, lambda a, b: a | b, edge)


# ---------------------------------------------------------------------------
def check_wakeups(rep, tier):
    rep.rule('wait-locked', 'pthread_cond_wait is called with its mutex held')
    rep.rule('wait-loop', 'pthread_cond_wait sits in a loop that is left only after re-reading '
             'the shared state (spurious wake-ups)')
    rep.rule('wait-fresh', 'the state is read after the mutex was acquired (or the wait returned) '
             'and before waiting, with the mutex held throughout')
    rep.rule('post-locked', 'another thread changes the awaited state only with the waiter\'s '
             'mutex held')
    rep.rule('post-signal', 'every such change is accompanied by a signal/broadcast of the '
             'waiter\'s condition variable, in the critical section or after it, on every path')
    rep.rule('post-distinct', 'the value posted is one the waiting loop leaves on')
    for u in units(rep, tier):
        T = u.T
        fn = T.fn
        if not u.waits:
            for n, t in list(rep.rules.items()):
                rep.unk(n, fn.dem, 'the worker never blocks on a condition variable')
            continue
        for w in u.waits:
            site = fn.mod.repo_loc(w.dl)
            mloc = T.P.loc(w.ops[1])
            cloc = T.P.loc(w.ops[0])
            rep.check('wait-locked', mloc in T.held(w), 'cond_wait lock ' + fn.dem, site,
                      'pthread_cond_wait without holding its mutex', u.name)
            pred = u.pred[w.id]
            if not pred:
                rep.bad('wait-loop', 'cond_wait loop ' + fn.dem, site,
                        'pthread_cond_wait is not inside a loop that re-tests the state while the '
                        'mutex is held', u.name)
                continue
            rep.ok('wait-loop')
            loads = [l for l in pred if l.op == 'load' and T.P.loc(l.ops[0])[0] == u.obj]
            plocs = {T.P.loc(l.ops[0]) for l in loads}
            if not plocs:
                rep.bad('wait-loop', 'cond_wait predicate ' + fn.dem, site,
                        'the waiting loop does not depend on the shared state', u.name)
                continue

            # freshness: locations read since the mutex was (re)acquired
            def tr(i, s):
                if i.is_call():
                    n = i.callee_name()
                    if n in LOCK + UNLOCK + WAIT:
                        return frozenset()
                if i.op == 'load':
                    l = T.P.loc(i.ops[0])
                    if l in plocs and mloc in T.held(i):
                        return s | {l}
                return s
            st = forward(fn, frozenset(), tr, lambda a, b: a & b)
            rep.check('wait-fresh', plocs <= st.get(w.id, frozenset()), 'stale predicate ' + fn.dem,
                      site, 'the state tested before pthread_cond_wait was not read under the '
                      'mutex since it was acquired: a wake-up in between is lost', u.name)
            leave = leaving_values(u, w, loads)
            # posting side
            coff, moff = cloc[1], mloc[1]
            poffs = {l[1] for l in plocs}
            for x in u.main_functions():
                f2 = x.fn
                bases = u.worker_bases(x)
                creates = list(f2.calls('pthread_create'))
                joins = list(f2.calls('pthread_join'))
                for i, loc, k, at, sz in x.accesses():
                    if 'w' not in k or loc[0] not in bases or loc[1] not in poffs or loc[2]:
                        continue
                    b = loc[0]
                    if any(f2.dominates(i, c) and b in alts(x.P.path(c.ops[3])) for c in creates):
                        continue
                    if any(f2.dominates(j, i) for j in joins if joined(x, j, b)):
                        continue
                    s2 = f2.mod.repo_loc(i.dl)
                    rep.check('post-locked', (b, moff, False) in x.held(i),
                              'state store %s' % f2.name, s2,
                              'the state a worker waits for is changed without its mutex: the '
                              'wake-up can be lost', u.name)

                    def is_sig(j):
                        return j.is_call() and j.callee_name() in SIGNAL and \
                            (b, coff, False) == x.P.loc(j.ops[0])
                    after = must_pass(f2, i, is_sig, lambda j: j.op == 'ret' or (
                        j.is_call() and j.callee_name() == 'pthread_join'))
                    okk = after is None
                    if not okk:
                        okk = must_precede(f2, i, is_sig, lambda j: j.is_call() and
                                           j.callee_name() in LOCK + UNLOCK) is None
                    rep.check('post-signal', okk, 'signal %s' % f2.name, s2,
                              'the state a worker waits for is changed without signalling its '
                              'condition variable on some path', u.name)
                    if i.op == 'store' and i.ops[0][0] == 'c' and leave is not None:
                        rep.check('post-distinct', i.ops[0][1] not in leave,
                                  'posted value %s' % f2.name, s2,
                                  'the posted state %d does not end the wait' % i.ops[0][1], u.name)
                    else:
                        rep.unk('post-distinct', s2, 'posted value is not a constant')
            # a signal wakes one waiter: several waiting roles need broadcast
            others = [x for x in u.main_functions() if list(x.fn.calls(*WAIT))]
            if others:
                rep.unk('post-signal', others[0].fn.name,
                        'the controlling thread waits on a condition variable as well')
    return TRUST


def leaving_values(u, w, loads):
    """constants on which the waiting loop keeps waiting, or None"""
    fn = u.T.fn
    rel = u.T.P.loc(w.ops[1])
    loop = u.cycle(w, lambda i: i.is_call() and i.callee_name() in UNLOCK and
                   u.T.P.loc(i.ops[0]) == rel)
    stay = None
    for b in loop:
        t = b.term
        if not any(s not in loop for s in b.succ):
            continue
        if t.op == 'br' and t.ops and t.ops[0][0] == 'i':
            c = fn.inst[t.ops[0][1]]
            if c.op == 'icmp' and c.get('pred') in ('eq', 'ne') and c.ops[1][0] == 'c':
                inn = fn.blocks[t.d['succ'][0]] in loop
                if (c.get('pred') == 'eq') == inn:
                    stay = (stay or set()) | {c.ops[1][1]}
                    continue
        return None
    return stay


# ---------------------------------------------------------------------------
def check_lifetime(rep, tier):
    rep.rule('init-before-create', 'every worker field the thread uses is initialised before '
             'pthread_create on every path')
    rep.rule('no-late-init', 'nothing of the worker object is written without its mutex after '
             'pthread_create in the creating function')
    rep.rule('exit-before-join', 'before pthread_join the exit state the thread terminates on has '
             'been stored')
    rep.rule('join-before-free', 'the condition variable, the mutex and the worker itself are '
             'destroyed only after pthread_join of its thread')
    rep.rule('destroy-joins', 'destroying a worker joins its thread on every path')
    rep.rule('pool-joins-all', 'destroying the pool destroys every worker in its vector before '
             'the vector is released')
    rep.rule('not-detached', 'worker threads are created joinable and never detached')
    rep.rule('kept', 'a created worker is stored in the pool before the creating function returns')
    for u in units(rep, tier):
        T = u.T
        used = {}
        for i, loc, k, at, sz in T.accesses():
            if loc[0] == u.obj and not loc[2]:
                used.setdefault(loc[1], (i, sz))
        pobj = {}
        for i in T.fn.all():
            if i.is_call() and (i.callee_name() or '').startswith('pthread_'):
                for o in i.ops:
                    l = T.P.loc(o)
                    if l[0] == u.obj:
                        pobj[l[1]] = i
        tid_off = set()
        for x, c in u.creates:
            fn = x.fn
            for b in alts(x.P.path(c.ops[3])):
                inits = {}
                for i, loc, k, at, sz in x.accesses():
                    if 'w' in k and loc[0] == b and not loc[2]:
                        inits.setdefault(loc[1], []).append((i, sz))
                pin = {}
                for i in fn.all():
                    if i.is_call() and (i.callee_name() or '') in ('pthread_mutex_init',
                                                                   'pthread_cond_init'):
                        l = x.P.loc(i.ops[0])
                        if l[0] == b:
                            pin.setdefault(l[1], []).append(i)
                for off, (ti, tsz) in sorted(used.items()):
                    ok = any(fn.dominates(i, c) and o <= off and (s is None or off + (tsz or 1) <= o + s)
                             for o, l in inits.items() for i, s in l)
                    rep.check('init-before-create', ok, 'field +%d in %s' % (off, fn.name),
                              fn.mod.repo_loc(c.dl),
                              'the thread uses the worker field at offset %d (%s), which is not '
                              'initialised before pthread_create' % (off, T.fn.mod.repo_loc(ti.dl)),
                              u.name)
                for off, ti in sorted(pobj.items()):
                    ok = any(fn.dominates(i, c) for i in pin.get(off, [])) or \
                        any(fn.dominates(i, c) for o, l in inits.items() for i, s in l if o == off)
                    rep.check('init-before-create', ok, 'pthread object +%d in %s' % (off, fn.name),
                              fn.mod.repo_loc(c.dl), 'the pthread object at offset %d the thread '
                              'uses (%s) is not initialised before pthread_create' % (
                                  off, ti.callee_name()), u.name)
                cr = fn.reach(c, stop=lambda i: i.is_call() and i.callee_name() == '_Znwm')
                for off, l in inits.items():
                    for i, s in l:
                        if i in cr and not fn.dominates(i, c) and i.ord is None:
                            held = any(bb == b and o in u.mutex_off for bb, o, v in x.held(i))
                            rep.check('no-late-init', held, 'late write +%d %s' % (off, fn.name),
                                      fn.mod.repo_loc(i.dl), 'the worker object is written after '
                                      'its thread was started, without its mutex', u.name)
                rep.ok('no-late-init')
                tl = x.P.loc(c.ops[0])
                if tl[0] == b:
                    tid_off.add(tl[1])
                rep.check('not-detached', attr_ok(x, c), 'attr ' + fn.name, fn.mod.repo_loc(c.dl),
                          'the worker thread is created with attributes that may make it detached',
                          u.name)
                if b[0] == 'call':
                    # new Worker: must be stored somewhere reachable from the pool
                    stored = [i for i in fn.all() if i.op == 'store' and
                              b in alts(x.P.path(i.ops[0]))]
                    ids = {i.id for i in stored}
                    miss = must_pass(fn, c, lambda i: i.id in ids,
                                     lambda i: i.op == 'ret' or i is c)
                    rep.check('kept', miss is None, 'kept ' + fn.name, fn.mod.repo_loc(c.dl),
                              'a created worker may be dropped (never destroyed nor joined)', u.name)
        for x in u.main_functions() + [T]:
            for i in x.fn.calls('pthread_detach', 'pthread_cancel', 'pthread_kill', 'pthread_exit'):
                rep.bad('not-detached', '%s %s' % (i.callee_name(), x.fn.name),
                        x.fn.mod.repo_loc(i.dl), '%s on a worker thread' % i.callee_name(), u.name)
        # destruction
        exitv = exit_values(u)
        for name in ('vp_worker_destroy', 'vp_pool_destroy'):
            x = u.f[name]
            fn = x.fn
            joins = list(fn.calls('pthread_join'))
            if not joins:
                rep.bad('destroy-joins', name, fn.mod.loc_str(-1, fn), 'destroying the %s does not '
                        'join any worker thread' % name.split('_')[1], u.name)
                continue
            for j in joins:
                p = x.P.path(j.ops[0])
                if p[0] != 'ld' or p[2] not in tid_off:
                    rep.bad('destroy-joins', 'join id ' + name, fn.mod.repo_loc(j.dl),
                            'pthread_join is not given the id pthread_create stored', u.name)
                    continue
                b = p[1]
                poffs = {T.P.loc(l.ops[0])[1] for w in u.waits for l in (u.pred[w.id] or ())
                         if l.op == 'load'}

                def posts(i):
                    if i.op != 'store':
                        return False
                    l = x.P.loc(i.ops[1])
                    return l[0] == b and l[1] in poffs and i.ops[0][0] == 'c' and \
                        (exitv is None or i.ops[0][1] in exitv)
                miss = must_precede(fn, j, posts, lambda i: i.op == 'store' and
                                    x.P.loc(i.ops[1])[0] == b and x.P.loc(i.ops[1])[1] in poffs)
                rep.check('exit-before-join', miss is None, 'exit state ' + name,
                          fn.mod.repo_loc(j.dl), 'pthread_join is reached without having stored a '
                          'state on which the thread exits (values %s)' % (
                              sorted(exitv) if exitv else '?'), u.name)
                for i in fn.all():
                    bad = None
                    if i.is_call() and i.callee_name() in ('pthread_cond_destroy',
                                                           'pthread_mutex_destroy'):
                        if x.P.loc(i.ops[0])[0] == b:
                            bad = i.callee_name()
                    elif i.is_call() and (i.callee_name() or '').startswith('_ZdlPv'):
                        if b in alts(x.P.path(i.ops[0])):
                            bad = 'delete'
                    if bad:
                        # join precedes without going back to the loop start
                        miss = must_precede(fn, i, lambda q: q is j)
                        rep.check('join-before-free', miss is None, '%s %s' % (bad, name),
                                  fn.mod.repo_loc(i.dl), '%s before the worker thread was joined'
                                  % bad, u.name)
                    # the local allocator's storage too
                    elif i.is_call() and i.callee_name() in ('free', 'aligned_free'):
                        q = x.P.path(i.ops[0])
                        if q[0] == 'ld' and q[1] == b:
                            miss = must_precede(fn, i, lambda q2: q2 is j)
                            rep.check('join-before-free', miss is None, 'free %s' % name,
                                      fn.mod.repo_loc(i.dl), 'worker-owned memory freed before the '
                                      'thread was joined', u.name)
            if name == 'vp_worker_destroy':
                js = {j.id for j in joins}
                r = fn.blocks[0].insts[0]
                miss = must_pass(fn, r, lambda i: i.id in js, lambda i: i.op == 'ret')
                rep.check('destroy-joins', miss is None, name, fn.mod.loc_str(-1, fn),
                          'a path through the worker destructor does not join the thread', u.name)
            else:
                pool_covers(rep, u, x, joins)
    return TRUST


def attr_ok(x, c):
    return c.ops[1][0] == 'n' or not any(True for _ in x.fn.calls('pthread_attr_setdetachstate'))


def exit_values(u):
    """values of the state on which the thread function returns"""
    fn = u.T.fn
    poffs = {u.T.P.loc(l.ops[0])[1] for w in u.waits for l in (u.pred[w.id] or ())
             if l.op == 'load'}
    if not poffs:
        return None
    out = set()
    found = False

    def state_val(ref):
        ls = u.leaves(ref)
        return ls and all(l.op == 'load' and u.T.P.loc(l.ops[0])[0] == u.obj and
                          u.T.P.loc(l.ops[0])[1] in poffs for l in ls)

    def returns(b):
        seen = set()
        work = [b]
        while work:
            q = work.pop()
            if q in seen:
                continue
            seen.add(q)
            if any(i.is_call() and (i.callee_name() in WAIT or i.is_indirect()) for i in q.insts) or \
                    any(i.op == 'load' and u.T.P.loc(i.ops[0])[1] in poffs and
                        u.T.P.loc(i.ops[0])[0] == u.obj for i in q.insts):
                continue
            if q.term.op == 'ret':
                return True
            work += q.succ
        return False
    for b in fn.blocks:
        t = b.term
        if t.op == 'switch' and state_val(t.ops[0]):
            for v, s in t.d['cases']:
                if returns(fn.blocks[s]):
                    out.add(v)
                    found = True
            if returns(fn.blocks[t.d['def']]):
                return None
        elif t.op == 'br' and t.ops and t.ops[0][0] == 'i':
            c = fn.inst[t.ops[0][1]]
            if c.op == 'icmp' and c.get('pred') in ('eq', 'ne') and c.ops[1][0] == 'c' and \
                    state_val(c.ops[0]):
                eqs = t.d['succ'][0 if c.get('pred') == 'eq' else 1]
                nes = t.d['succ'][1 if c.get('pred') == 'eq' else 0]
                if returns(fn.blocks[eqs]):
                    out.add(c.ops[1][1])
                    found = True
                if returns(fn.blocks[nes]):
                    # returns on "anything else": only conclusive when the
                    # value tested against is the waiting state
                    return None
    return out if found else None


def pool_covers(rep, u, x, joins):
    fn = x.fn
    L = lin.Linear(fn, x.P, stable=lambda i: i.ord is None and x.P.loc(i.ops[0])[0] == ('arg', 0))
    for j in joins:
        loops = [l for l in fn.loops if j.bb.id in l['blocks']]
        site = fn.mod.repo_loc(j.dl)
        if not loops:
            rep.bad('pool-joins-all', 'pool dtor loop', site, 'the pool destructor joins a fixed '
                    'number of workers', u.name)
            continue
        lo = min(loops, key=lambda l: len(l['blocks']))
        n = L.iterations(lo)
        # the worker joined in iteration k: address it is loaded from
        wp = x.P.path(j.ops[0])[1]
        # find the load that produced the worker pointer
        src = worker_load(x, j)
        if n is None or src is None:
            rep.unk('pool-joins-all', site, 'the destruction loop is not a counted loop')
            continue
        addr = L.ref(src.ops[0])
        step = addr.get(('k', lo['id']))
        ps = ptr_bytes(fn.mod)
        start = {k: v for k, v in addr.items() if k != ('k', lo['id'])}
        begin = end = None
        for s in list(start) + list(n[0]):
            pass
        # expected: [begin,end) of the vector at pool+o
        ok = False
        # nulls are skipped by delete: join may be conditional on worker != 0
        for off in vector_offs(fn.mod):
            bg = {('m', ('off', ('arg', 0), off, False) if off else ('arg', 0)): Fraction(1)}
            en = {('m', ('off', ('arg', 0), off + ps, False)): Fraction(1)}
            size = lin.scale(lin.add(en, bg, -1), Fraction(1, ps))
            if n[0] != size:
                continue
            if step == ps and start == bg:
                ok = True
            if step == -ps and start == lin.add(en, lin.const(ps), -1):
                ok = True
        rep.check('pool-joins-all', ok, 'pool dtor range', site, 'the pool destructor destroys '
                  'workers at %s for %s iterations, which is not the whole vector' % (
                      lin.show(addr), lin.show(n[0])), u.name)
        # vector storage released after the loop
        for i in fn.all():
            if i.is_call() and (i.callee_name() or '').startswith('_ZdlPv'):
                q = x.P.path(i.ops[0])
                if q[0] == 'ld' and q[1] == ('arg', 0):
                    rep.check('pool-joins-all', i.bb.id not in lo['blocks'] and
                              j not in fn.reach(i), 'vector freed', fn.mod.repo_loc(i.dl),
                              'the worker vector is released before all workers are destroyed',
                              u.name)


def vector_offs(mod):
    t = mod.types.get('gemmlowp::WorkersPool')
    out = []
    for m in (t or {}).get('members', []):
        if 'vector' in str(m[3]):
            out.append(m[1])
    return out or [0]


def ptr_bytes(mod):
    return mod.ptrsize // 8 if mod.ptrsize > 16 else mod.ptrsize


def worker_load(x, j):
    """the load that fetched the worker pointer from the vector"""
    r = x.P.base(j.ops[0])[0]
    i = x.fn.inst[r[1]] if r[0] == 'i' else None
    if i is None or i.op != 'load':
        return None
    r = x.P.base(i.ops[0])[0]
    i = x.fn.inst[r[1]] if r[0] == 'i' else None
    return i if i is not None and i.op == 'load' else None


# ---------------------------------------------------------------------------
def check_exactly_once(rep, tier):
    rep.rule('armed', 'the completion count is set before any worker is started or given a task, '
             'and never reset while workers are pending')
    rep.rule('waited', 'when Execute returns, or deletes a task, the completion count has been '
             'observed to be zero since the last hand-off, on every path')
    rep.rule('count', 'the completion count is set to exactly the number of hand-offs (thread '
             'start-ups) that follow')
    rep.rule('partition', 'the hand-off loop and the task run by the calling thread together '
             'cover every task index exactly once')
    rep.rule('distinct-workers', 'each hand-off of one Execute goes to a different, existing worker')
    rep.rule('run-then-done', 'a worker counts itself done exactly once per hand-off, after '
             'running the task')
    rep.rule('no-skip', 'a worker skips running a task only when it has none')
    rep.rule('delete-all', 'LegacyExecuteAndDestroyTasks deletes every task exactly once', 1)
    rep.rule('main-run', 'the calling thread runs its task on every path')
    for u in units(rep, tier):
        worker_side(rep, u)
        for name in ('vp_pool_execute_array', 'vp_pool_execute_vector', 'vp_pool_legacy'):
            pool_side(rep, u, u.f[name])
    rep.notes.append('loop counts are over the mathematical integers (task counts below 2^31)')
    return TRUST


def worker_side(rep, u):
    T = u.T
    fn = T.fn
    runs = {i.id for i, _ in u.runs}
    decs = {i.id for i in u.decs}
    site = fn.mod.repo_loc(u.runs[0][0].dl)
    if not decs:
        rep.bad('run-then-done', 'no completion ' + fn.dem, site,
                'the worker never counts itself done', u.name)
        return
    for i in u.decs:
        ok = (i.op == 'atomicrmw' and i.get('rmw') in ('sub', 'add') and
              i.ops[1][0] == 'c' and i.ops[1][1] * (1 if i.get('rmw') == 'sub' else -1) == 1) or \
             (i.op == 'cmpxchg' and cas_dec(fn, i))
        rep.check('run-then-done', ok, 'decrement amount ' + fn.dem, fn.mod.repo_loc(i.dl),
                  'the completion count is not atomically decremented by one', u.name)
    # loop structure: outermost cycle containing the wait/run
    header = None
    cand = [l for l in fn.loops if u.runs[-1][0].bb.id in l['blocks']]
    for i, _ in u.runs:
        for l in fn.loops:
            if i.bb.id in l['blocks'] and l['parent'] == -1:
                header = fn.blocks[l['header']]
    if header is None:
        rep.bad('run-then-done', 'no loop ' + fn.dem, site,
                'the worker thread function runs tasks outside any loop: it serves one task only',
                u.name)
        return

    def counts(start_block, start_count, region_end):
        """possible number of decrements on paths from start to the header /
        to ret"""
        st = {}
        at_header, at_ret = set(), set()
        work = [(start_block, start_count)]
        seen = set()
        while work:
            b, c = work.pop()
            if (b, c) in seen:
                continue
            seen.add((b, c))
            for i in b.insts:
                if i.id in decs:
                    # a failed CAS attempt is not a decrement: treat the CAS
                    # as counting on its success edge only
                    if i.op == 'cmpxchg':
                        continue
                    c = min(c + 1, 3)
                if i.op == 'ret':
                    at_ret.add(c)
            for s in b.succ:
                c2 = c
                if b.insts and cas_success(fn, b, s, decs):
                    c2 = min(c + 1, 3)
                if s is header:
                    at_header.add(c2)
                else:
                    work.append((s, c2))
        return at_header, at_ret
    eh, er = counts(fn.blocks[0], 0, None) if fn.blocks[0] is not header else ({0}, set())
    hh, hr = counts(header, 0, None)
    rep.check('run-then-done', hh == {1}, 'decrements per iteration ' + fn.dem, site,
              'one iteration of the worker loop decrements the completion count %s times' %
              '/'.join(map(str, sorted(hh))), u.name)
    tot = {a + b for a in eh for b in hr} | er
    rep.check('run-then-done', tot <= {1}, 'start-up decrement ' + fn.dem, site,
              'start-up and exit of the worker thread decrement the completion count %s times '
              'instead of once' % '/'.join(map(str, sorted(tot))), u.name)
    for i, off in u.runs:
        miss = must_pass(fn, i, lambda q: q.id in decs, lambda q: q.op == 'ret' or q.id in runs or
                         (q.is_call() and q.callee_name() in WAIT))
        rep.check('run-then-done', miss is None, 'done after run ' + fn.dem, fn.mod.repo_loc(i.dl),
                  'after running a task the worker can wait for the next one without counting '
                  'itself done', u.name)
        # no decrement shortly before the run (count first, run later)
    # every decrement is preceded, since the previous one, by a run or by
    # having found no task
    null_edges = set()
    for b in fn.blocks:
        t = b.term
        if t.op == 'br' and t.ops and t.ops[0][0] == 'i':
            c = fn.inst[t.ops[0][1]]
            if c.op == 'icmp' and c.get('pred') in ('eq', 'ne'):
                a, z = c.ops
                if a[0] == 'n':
                    a, z = z, a
                if z[0] == 'n' and a[0] == 'i':
                    l = fn.inst[a[1]]
                    if l.op == 'load' and T.P.loc(l.ops[0]) in \
                            {(u.obj, o, False) for o in u.task_offs}:
                        k = 0 if c.get('pred') == 'eq' else 1
                        null_edges.add((b.id, t.d['succ'][k]))
    for d in u.decs:
        bad = None
        seen = set()
        work = [(d.bb, d.idx - 1)]
        while work and bad is None:
            b, k = work.pop()
            hit = False
            for j in range(k, -1, -1):
                i = b.insts[j]
                if i.id in runs:
                    hit = True
                    break
                if i.id in decs and not (i is d and i.op == 'cmpxchg'):
                    bad = i
                    break
            if hit or bad is not None:
                continue
            if b is fn.blocks[0]:
                # start-up: the constructor's null task need not be tested
                continue
            for p in b.pred:
                if (p.id, b.id) in null_edges:
                    continue
                if p not in seen:
                    seen.add(p)
                    work.append((p, len(p.insts) - 1))
        rep.check('no-skip', bad is None, 'skip ' + fn.dem, fn.mod.repo_loc(d.dl),
                  'a worker can count itself done without having run the task it was given', u.name)
    # runs need a task that is current: read under the lock after the state
    # change (P05 decides the race)


def cas_dec(fn, i):
    """cmpxchg(addr, old, new) with new = old - 1"""
    o, n = i.ops[1], i.ops[2]
    if n[0] != 'i':
        return False
    x = fn.inst[n[1]]
    return x.op in ('add', 'sub') and x.ops[0] == o and x.ops[1][0] == 'c' and \
        x.ops[1][1] == (-1 if x.op == 'add' else 1)


def cas_success(fn, b, s, decs):
    t = b.term
    if t.op != 'br' or not t.ops or t.ops[0][0] != 'i':
        return False
    c = fn.inst[t.ops[0][1]]
    if c.op == 'extractvalue' and c.ops[0][0] == 'i' and c.ops[0][1] in decs:
        return fn.blocks[t.d['succ'][0]] is s
    return False


def pool_side(rep, u, x):
    fn, L = x.fn, None
    name = fn.name
    cl = counter_locs(u, x)
    if not cl:
        raise build.AnalysisBroken('cannot identify the completion counter in ' + name)
    ho = handoffs(u, x)
    hid = {i.id for i in ho}
    cid = {c.id for c in fn.calls('pthread_create')}
    resets = [i for i, loc, k, at, sz in x.accesses() if 'w' in k and loc in cl]
    rid = {i.id for i in resets}
    if not ho:
        rep.bad('partition', 'no hand-off ' + name, fn.mod.loc_str(-1, fn),
                'no task is handed to any worker', u.name)
        return
    IDLE, PEND = 'idle', 'pending'
    st = pending(u, x)
    for i in ho + list(fn.calls('pthread_create')):
        s = st.get(i.id)
        if s is None:
            continue
        rep.check('armed', IDLE not in s, 'hand-off unarmed ' + name, fn.mod.repo_loc(i.dl),
                  'a worker is started or given a task before the completion count is set', u.name)
    for i in resets:
        s = st.get(i.id, frozenset())
        rep.check('armed', PEND not in s, 'reset while pending ' + name, fn.mod.repo_loc(i.dl),
                  'the completion count is overwritten while workers may still be running', u.name)
    for i in fn.all():
        if i.op == 'ret':
            s = st.get(i.id, frozenset())
            rep.check('waited', s <= {IDLE}, 'return while pending ' + name, fn.mod.repo_loc(i.dl),
                      'returns while workers may still be running tasks', u.name)
    # indirect calls on tasks: Run (slot found in the worker thread) or delete
    slot = run_slot(u)
    runs, dels = [], []
    for i in fn.all():
        if i.is_call() and i.is_indirect() and i.ops:
            s = vslot(x, i)
            if s is None:
                continue
            (runs if s == slot else dels).append(i)
    for i in dels:
        s = st.get(i.id, frozenset())
        rep.check('waited', s <= {IDLE}, 'delete while pending ' + name, fn.mod.repo_loc(i.dl),
                  'a task is destroyed while workers may still be running', u.name)
    if not runs:
        rep.bad('main-run', 'main run ' + name, fn.mod.loc_str(-1, fn),
                'the calling thread runs no task itself', u.name)
        return
    # tasks vector/array symbols are never written here
    L = lin.Linear(fn, x.P)
    task_base = None
    # each hand-off
    if len(ho) != 1:
        rep.unk('partition', name, '%d hand-off sites' % len(ho))
        return
    h = ho[0]
    site = fn.mod.repo_loc(h.dl)
    loops = [l for l in fn.loops if h.bb.id in l['blocks']]
    if not loops:
        rep.unk('partition', site, 'the hand-off is not in a loop')
        return
    lo = min(loops, key=lambda l: len(l['blocks']))
    n = L.runs(lo, h)
    if n is None:
        # a conditional hand-off inside the loop?
        it = L.iterations(lo)
        if it is not None and lin._avoid(fn, fn.blocks[lo['header']], h, set(lo['blocks'])):
            rep.bad('partition', 'conditional hand-off ' + name, site,
                    'an iteration of the hand-off loop may hand no task over', u.name)
        else:
            rep.unk('partition', site, 'the hand-off loop is not a counted loop')
        return
    k = ('k', lo['id'])
    # number of tasks
    if name == 'vp_pool_execute_array':
        N = {('a', 1): Fraction(1)}
        esz = None

        def index(ref):
            v = dict(L.ref(ref))
            if v.pop(('a', 2), None) != 1:
                return None
            return lin.scale(v, Fraction(1, task_size(u)))
    else:
        ps = ptr_bytes(fn.mod)
        bg = ('m', ('arg', 1))
        en = ('m', ('off', ('arg', 1), ps, False))
        N = {en: Fraction(1, ps), bg: Fraction(-1, ps)}

        def index(ref):
            # value loaded from begin[idx]
            if ref[0] != 'i' or fn.inst[ref[1]].op != 'load':
                return None
            v = dict(L.ref(fn.inst[ref[1]].ops[0]))
            return lin.scale(lin.add(v, {bg: Fraction(1)}, -1), Fraction(1, ps))
    hidx = index(h.ops[0])
    midx = [index(i.ops[0]) for i in runs]
    if hidx is None or any(m is None for m in midx):
        rep.unk('partition', site, 'task address is not an affine expression')
        return
    step = hidx.get(k, 0)
    start = {a: b for a, b in hidx.items() if a != k}
    if len(runs) != 1:
        rep.unk('main-run', name, '%d direct runs' % len(runs))
    else:
        r = runs[0]
        miss = must_pass(fn, h, lambda i: i is r, lambda i: i.op == 'ret')
        first = must_pass(fn, fn.blocks[0].insts[0], lambda i: i is r, lambda i: i.op == 'ret')
        inloop = bool(fn.in_cycle(r.bb))
        rep.check('main-run', miss is None and first is None and not inloop, 'main run ' + name,
                  fn.mod.repo_loc(r.dl), 'the calling thread does not run its task exactly once on '
                  'every path', u.name)
        m = midx[0]
        one = lin.const(1)
        if step == 1:
            lo_i, hi_i = start, lin.add(start, n)
        elif step == -1:
            lo_i, hi_i = lin.add(lin.add(start, n, -1), one), lin.add(start, one)
        else:
            lo_i = hi_i = None
        ok = lo_i is not None and (
            (lo_i == {} and hi_i == m and lin.add(m, one) == N) or
            (m == {} and lo_i == one and hi_i == N))
        rep.check('partition', ok, 'task partition ' + name, site,
                  'hand-offs cover task indices starting at %s (step %s, %s times) and the calling '
                  'thread runs index %s: not each of the %s tasks exactly once' % (
                      lin.show(start), step, lin.show(n), lin.show(m), lin.show(N)), u.name)
    # the count set before the hand-offs
    arm = last_reset(fn, h, rid)
    if arm is None or len(arm) != 1:
        rep.unk('count', site, 'several resets reach the hand-off')
    else:
        v = L.ref(fn.inst[arm[0]].ops[0])
        rep.check('count', v == n, 'count ' + name, fn.mod.repo_loc(fn.inst[arm[0]].dl),
                  'the completion count is set to %s but %s tasks are handed to workers' % (
                      lin.show(v), lin.show(n)), u.name)
    # worker of iteration k
    wl = None
    for i, loc, kk, at, sz in x.accesses():
        if i is h:
            r = x.P.base(h.ops[1])[0]
            wl = fn.inst[r[1]] if r[0] == 'i' else None
    bound = create_bound(u, x, L)
    if wl is None or wl.op != 'load':
        rep.unk('distinct-workers', site, 'worker pointer is not loaded from the pool')
    else:
        a = L.ref(wl.ops[0])
        ws = a.get(k, 0)
        rep.check('distinct-workers', abs(ws) == ptr_bytes(fn.mod), 'distinct workers ' + name,
                  site, 'consecutive hand-offs do not go to consecutive workers (stride %s bytes)'
                  % ws, u.name)
        ps = ptr_bytes(fn.mod)
        # index of the last worker used < bound ensured by CreateWorkers
        rest = {p: q for p, q in a.items() if p != k}
        base_syms = [s for s in rest if s != 1 and rest[s] == 1 and s[0] in ('i', 'm')
                     and is_vec_begin(x, s)]
        if bound is None or len(base_syms) != 1:
            rep.unk('distinct-workers', site, 'cannot relate worker index to the number created')
        else:
            rest.pop(base_syms[0])
            w0 = lin.scale(rest, Fraction(1, ps))
            top = lin.add(w0, n) if ws > 0 else lin.add(w0, lin.const(1))
            low = w0 if ws > 0 else lin.add(lin.add(w0, n, -1), lin.const(1))
            diff = lin.is_const(lin.add(bound, top, -1))
            lowc = lin.is_const(low)
            if diff is None or lowc is None:
                rep.unk('distinct-workers', site, 'worker range %s..%s vs bound %s' % (
                    lin.show(low), lin.show(top), lin.show(bound)))
            else:
                rep.check('distinct-workers', diff >= 0 and lowc >= 0, 'worker bound ' + name, site,
                          'workers up to index %s are used but only %s are guaranteed to exist' % (
                              lin.show(top), lin.show(bound)), u.name)
    # start-up count
    for c in fn.calls('pthread_create'):
        arm = last_reset(fn, c, rid)
        if not arm or len(arm) != 1 or bound is None:
            rep.unk('count', fn.mod.repo_loc(c.dl), 'start-up count not analysable')
            continue
        v = L.ref(fn.inst[arm[0]].ops[0])
        # expected: bound - size at that point
        v2 = lin.add(bound, v, -1)
        ps = ptr_bytes(fn.mod)
        ok = is_vec_size(x, L, v2, ps)
        rep.check('count', ok, 'start-up count ' + name, fn.mod.repo_loc(fn.inst[arm[0]].dl),
                  'the completion count is set to %s although workers are added until there are %s'
                  % (lin.show(v), lin.show(bound)), u.name)
    # legacy: delete range
    if name != 'vp_pool_execute_array':
        if not dels:
            rep.bad('delete-all', 'delete ' + name, fn.mod.loc_str(-1, fn),
                    'tasks are never destroyed', u.name)
        for d in dels:
            lps = [l for l in fn.loops if d.bb.id in l['blocks']]
            ds = fn.mod.repo_loc(d.dl)
            if not lps:
                rep.unk('delete-all', ds, 'delete outside a loop')
                continue
            l2 = min(lps, key=lambda l: len(l['blocks']))
            it = L.iterations(l2)
            di = index(d.ops[0])
            if it is None or di is None:
                rep.unk('delete-all', ds, 'delete loop is not a counted loop')
                continue
            k2 = ('k', l2['id'])
            st2 = di.pop(k2, 0)
            ok = it[0] == N and ((st2 == 1 and di == {}) or
                                 (st2 == -1 and di == lin.add(N, lin.const(1), -1)))
            if not ok and len(dels) > 1:
                rep.unk('delete-all', ds, 'several delete loops')
                continue
            rep.check('delete-all', ok, 'delete range ' + name, ds,
                      'tasks are deleted from index %s step %s, %s times, out of %s' % (
                          lin.show(di), st2, lin.show(it[0]), lin.show(N)), u.name)


def task_size(u):
    g = u.m.globals.get('vp_sizeof_task')
    if g and g.get('init') and g['init'][0] == 'c':
        return g['init'][1]
    raise build.AnalysisBroken('size of VpTask unknown')


def run_slot(u):
    for i, _ in u.runs:
        s = vslot(u.T, i)
        if s is not None:
            return s
    return None


def vslot(x, i):
    """byte offset of the virtual-table slot an indirect call uses"""
    p = x.P.path(i.callee)
    if p[0] == 'ld' and p[1][0] == 'ld' and p[1][2] == 0:
        return p[2]
    return None


def last_reset(fn, at, rid):
    """ids of the reset stores that reach `at`"""
    out = set()
    seen = set()
    work = [(at.bb, at.idx - 1)]
    while work:
        b, k = work.pop()
        hit = False
        for j in range(k, -1, -1):
            if b.insts[j].id in rid:
                out.add(b.insts[j].id)
                hit = True
                break
        if hit:
            continue
        for p in b.pred:
            if p not in seen:
                seen.add(p)
                work.append((p, len(p.insts) - 1))
    return sorted(out)


def is_vec_begin(x, sym):
    if sym[0] == 'm':
        p = sym[1]
        return p == ('arg', 0) or (p[0] == 'off' and p[1] == ('arg', 0))
    i = x.fn.inst[sym[1]]
    return i.op == 'load' and x.P.loc(i.ops[0])[0] == ('arg', 0)


def is_vec_size(x, L, v, ps):
    """v = (end - begin)/ps with both loaded from the pool's vector"""
    syms = [s for s in v if s != 1]
    if len(syms) != 2 or 1 in v:
        return False
    pos = [s for s in syms if v[s] == Fraction(1, ps)]
    neg = [s for s in syms if v[s] == Fraction(-1, ps)]
    if len(pos) != 1 or len(neg) != 1:
        return False
    offs = []
    for s in (neg[0], pos[0]):
        if s[0] == 'm':
            p = s[1]
            offs.append((p[1], p[2]) if p[0] == 'off' else (p, 0))
        elif s[0] == 'i' and x.fn.inst[s[1]].op == 'load':
            l = x.P.loc(x.fn.inst[s[1]].ops[0])
            offs.append((l[0], l[1]))
        else:
            return False
    return offs[0][0] == ('arg', 0) == offs[1][0] and offs[1][1] - offs[0][1] == ps


def create_bound(u, x, L):
    """X such that workers are created until the vector holds X of them: the
    loop around pthread_create continues while size < X"""
    fn = x.fn
    ps = ptr_bytes(fn.mod)
    for c in fn.calls('pthread_create'):
        lps = [l for l in fn.loops if c.bb.id in l['blocks']]
        if not lps:
            return None
        lo = min(lps, key=lambda l: len(l['blocks']))
        blocks = set(lo['blocks'])
        live = fn.live_blocks()
        ex = [(fn.blocks[b], t) for b in lo['blocks'] for t in fn.blocks[b].succ
              if t.id not in blocks and t in live]
        if len(ex) != 1:
            return None
        b, t = ex[0]
        term = b.term
        if term.op != 'br' or not term.ops or term.ops[0][0] != 'i':
            return None
        ic = fn.inst[term.ops[0][1]]
        if ic.op != 'icmp':
            return None
        pred = ic.get('pred')
        if fn.blocks[term.d['succ'][0]] is t:
            pred = lin.NEG[pred]
        A, B = L.ref(ic.ops[0]), L.ref(ic.ops[1])
        if is_vec_size(x, L, A, ps):
            if pred in ('ult', 'slt', 'ne'):
                return B
            if pred in ('ule', 'sle'):
                return lin.add(B, lin.const(1))
        if is_vec_size(x, L, B, ps):
            if pred in ('ugt', 'sgt', 'ne'):
                return A
            if pred in ('uge', 'sge'):
                return lin.add(A, lin.const(1))
        it = L.iterations(lo)
        if it is not None:
            # counted loop: creates `it` workers starting from the size at entry
            # find size at entry from the reset value
            return None
        return None
    return None

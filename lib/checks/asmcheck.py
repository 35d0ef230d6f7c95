"""P15: inline assembly declares to the compiler everything it does."""
import os
import re
import subprocess

import asm
import build

TRUST = ['clang 18 front end (operand numbering and constraints of each asm statement)',
         'the instruction effect model in lib/asm.py', 'lib/checks/asmcheck.py',
         'GNU inline-assembly contract (GCC manual, Extended Asm)']

CFGS = ['x86', 'sse4', 'avx2', 'aarch64', 'armhf', 'aarch64+dotprod', 'i686+sse4', 'mips64+msa',
        'mips32+msa']


def kernels(cfg, extra=()):
    """Names of the kernel classes visible in this configuration, and the
    positions of all asm statements of the library."""
    src = os.path.join(build.VERIF, 'drivers', 'asm.cc')
    r = subprocess.run(['clang++', *build.clang_flags(cfg, False, extra), '-E', src],
                       capture_output=True, text=True, errors='replace')
    if r.returncode:
        raise build.AnalysisBroken('asm.cc does not preprocess for %s: %s' % (cfg, r.stderr[-1500:]))
    names = []
    asms = set()
    f, line = '', 0
    body = []
    for l in r.stdout.split('\n'):
        m = re.match(r'^# (\d+) "([^"]*)"', l)
        if m:
            line, f = int(m[1]) - 1, m[2]
            continue
        line += 1
        if '/usr/' in f or f.startswith('<'):
            continue
        body.append(l)
        if re.search(r'\b(asm|__asm__|__asm)\b\s*(volatile|__volatile__)?\s*(\(|$)', l):
            asms.add((os.path.normpath(f), line))
    text = '\n'.join(body)
    for m in re.finditer(r'(template\s*<[^<>{};]*(?:<[^<>]*>)?[^<>{};]*>\s*)?\b(?:struct|class)\s+(\w+)\s*'
                         r'(?:final\s*)?:\s*(?:public\s+)?(?:gemmlowp::)?KernelBase\b', text):
        if not m[1]:
            names.append(m[2])
    return names, asms


def analyse(a):
    """Yield (rule, detail, inst) violations and per-rule instance counts."""
    bad = []
    n = dict(reg=0, inp=0, mem=0, cc=0, init=0, early=0, label=0, model=0)
    for k, x in enumerate(a.insts):
        n['model'] += 1
        if x.unknown:
            bad.append(('model', x.text, x, x.unknown))
            continue
        for w in x.writes:
            if isinstance(w, tuple):
                n['inp'] += 1
                if not a.is_output(w[1]):
                    bad.append(('inp', 'operand %d' % w[1], x,
                                'modifies operand %d, which is declared input-only' % w[1]))
            elif w in ('sp', 'rsp', 'pc'):
                n['reg'] += 1
                bad.append(('reg', w, x, 'modifies the stack pointer or program counter'))
            else:
                n['reg'] += 1
                if w not in a.clob and not fixed_out(a, w):
                    bad.append(('reg', w, x, 'modifies register %s, which is neither an output nor in '
                                             'the clobber list' % w))
        if x.load or x.store:
            n['mem'] += 1
            byref = any(isinstance(o, tuple) and a.is_mem(o[1]) for o in x.reads + x.writes)
            if 'memory' not in a.clob and (x.store or not byref):
                bad.append(('mem', 'store' if x.store else 'load', x,
                            '%s memory without declaring it (no "memory" clobber)' %
                            ('writes' if x.store else 'reads')))
        if x.flags:
            n['cc'] += 1
            if not a.clob & {'cc', 'flags'}:
                bad.append(('cc', 'flags', x, 'changes the condition flags without a "cc" clobber'))
        if x.target is not None:
            n['label'] += 1
            t = a.find(x.target, k)
            if t is None:
                bad.append(('label', x.target, x, 'branches to a label outside the statement'))
    for l in a.all_labels:
        n['label'] += 1
        if not (l.isdigit() or '${:uid}' in l or '${:private}' in l):
            bad.append(('label', l, None, 'defines the non-local label %s: the statement cannot be '
                        'duplicated by the compiler' % l))
    # definite initialisation
    N = len(a.insts)
    state = {0: frozenset()}
    if N:
        work = [0]
        while work:
            k = work.pop()
            x = a.insts[k]
            s = state[k]
            out = s | {half(a, w) for w in x.writes if not isinstance(w, tuple)}
            if x.flags:
                out |= {'flags'}
            for t in a.succ(k):
                if t is None or t >= N:
                    continue
                new = out if t not in state else state[t] & out
                if t not in state or new != state[t]:
                    state[t] = new
                    work.append(t)
        for k, s in state.items():
            x = a.insts[k]
            ins = {c.strip('{}') for c in a.cons[a.n_out:] if c.startswith('{')}
            inr = set()
            for c in ins:
                inr |= a.arch.canon_clobber(c)
            for r in x.reads:
                if isinstance(r, tuple):
                    if a.is_output(r[1]) and r[1] not in a.tied and not a.is_mem(r[1]):
                        # pure output read: must have been written before
                        pass
                    continue
                if r in ('sp', 'rsp', 'pc'):
                    continue
                n['init'] += 1
                if half(a, r) not in s and r not in inr:
                    bad.append(('init', r, x, 'reads register %s, which nothing in the statement has '
                                'set on some path to it' % r))
            if x.rflags:
                n['init'] += 1
                if 'flags' not in s:
                    bad.append(('init', 'flags', x, 'reads the condition flags before setting them'))
    # early clobber: pure outputs written while other inputs are still to be read
    for o in range(a.n_out):
        c = a.cons[o]
        if o in a.tied or '&' in c or '*' in c:
            continue
        n['early'] += 1
        for k, x in enumerate(a.insts):
            if ('op', o) not in x.writes:
                continue
            seen, work = set(), [t for t in a.succ(k) if t is not None]
            hit = None
            while work and hit is None:
                t = work.pop()
                if t in seen or t >= N:
                    continue
                seen.add(t)
                for r in a.insts[t].reads:
                    if isinstance(r, tuple) and not a.is_output(r[1]):
                        hit = (a.insts[t], r[1])
                work += [z for z in a.succ(t) if z is not None]
            if hit:
                bad.append(('early', 'operand %d' % o, x, 'writes output operand %d before input operand '
                            '%d is last used (%s), without early-clobber "&"' % (o, hit[1], hit[0])))
    return bad, n


def half(a, r):
    """Vector registers are tracked as a whole: unused lanes may hold garbage."""
    if a.arch.name == 'arm' and r[0] == 'd':
        return 'q%d' % (int(r[1:]) // 2)
    return r


def fixed_out(a, w):
    for c in a.cons[:a.n_out]:
        m = re.match(r'^=&?\{(\w+)\}', c)
        if m and w in a.arch.canon_clobber(m[1]):
            return True
    return False


RULES = {
    'reg': 'every register an instruction writes is an output operand or in the clobber list; the '
           'stack pointer is never written',
    'inp': 'an operand that an instruction writes is declared as an output ("=" or "+")',
    'mem': 'a statement that accesses memory through pointers declares a "memory" clobber',
    'cc': 'a statement that changes the flags declares "cc"',
    'init': 'a register (or the flags) that an instruction reads has been set inside the statement on '
            'every path to the read',
    'early': 'an output operand written before the inputs are consumed is early-clobber',
    'label': 'labels are local to the statement and branches stay inside it',
}


def check(rep, tier):
    for r, t in RULES.items():
        rep.rule(r, t, 0 if r == 'early' else 20)
    for cfg in CFGS:
        names, asms = kernels(cfg)
        ex = []
        if names:
            ex.append('-DVP_KERNELS(X)=' + ' '.join('X(%s)' % k for k in names))
        m = build.module('asm.cc', cfg, extra=ex, flatten=False, scev=False, roots=())
        ar = asm.arch_of(m.triple)
        rep.units.add('drivers/asm.cc@' + cfg)
        seen = set()
        for f in m.defined():
            for i in f.all():
                if not i.is_asm():
                    continue
                if i.dl >= 0:
                    fi, ln, sc, up = m.locs[i.dl]
                    p = os.path.normpath(m.strs[fi])
                    if '/usr/' in p:
                        continue
                    seen.add((p, ln))
                if ar is None and i.callee[1].strip() in ('', 'nop'):
                    continue
                a = asm.Asm(i.callee[1], i.callee[2], ar)
                rep.functions.add(f.dem)
                rep.stat('asm statements')
                rep.stat('asm instructions', len(a.insts))
                bad, n = analyse(a)
                for r, c in n.items():
                    if r != 'model':
                        rep.ok(r, c)
                short = re.sub(r'\(.*', '', f.dem)
                for r, what, x, msg in bad:
                    if r == 'model':
                        if len(rep.undecided) < 200:
                            rep.unk('reg', '%s `%s`' % (i.loc(), what), 'instruction not modelled: ' + msg)
                        continue
                    rep.count[r] -= 1
                    rep.bad(r, '%s: %s' % (short, what), '%s (%s)' % (i.loc(), short),
                            'asm instruction `%s` %s' % (x, msg) if x else 'asm statement ' + msg,
                            unit=cfg)
                if not i.callee[3] and (a.clob & {'memory'} or any(x.store for x in a.insts)):
                    rep.bad('mem', short + ': not volatile', i.loc(),
                            'asm statement with side effects is not volatile', unit=cfg)
        rep.stat('asm statements found in the source', len(asms))
        if len(seen) < len(asms):
            rep.notes.append('%s: %d of %d asm statements analysed; the others are in uninstantiated '
                             'templates' % (cfg, len(seen), len(asms)))
    return TRUST

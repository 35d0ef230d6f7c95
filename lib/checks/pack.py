"""P21: packing a register block: every packed byte is its own source element,
padding is neutral, and the slice sums are exact."""
import random
import re

import build
from lane import (Eval, Ptr, Unsupported, V, C, B, mk, show, variables, width, ex, sext, zext, is_c, flat)
from poly import Norm, peval
from walk import Walk, Failed

CONFIGS = ['x86', 'sse4', 'avx2', 'aarch64', 'armhf', 'mips64+msa']
KEEP = ('Allocator::GetPointer<',)


def model(ev, i, n, a):
    if 'GetPointer' in n:
        return Ptr('data' if re.search(r'GetPointerIK?hE', n) else 'sums')
    if n == 'vp_note':
        ev.note = a[0]
        return None
    return NotImplemented


def offset(order, W, D, w, d):
    if order == 'D': return w + d * W
    if order == 'W': return d + w * D
    return ((W + w - d) * W + d) % (W * W)


def blocks(rep, tier):
    rep.rule('byte', 'each byte of a packed block is the source element the layout puts there, minus the '
                     'zero point of the format; missing elements are packed as 0', 2000)
    rep.rule('position', 'packing a block writes its own cells and sums only and advances by its size', 100)
    rep.rule('sum', 'each slice sum grows by exactly the sum of the packed values of its slice', 500)
    build.prefetch([('pack.cc', c) for c in CONFIGS], scev=False, keep=KEEP, debug=False)
    rep.parallel(CONFIGS, config)
    return ['clang 18 front end and LLVM normalisation', 'the models of SIMD intrinsics in lib/lane.py',
            'distinct allocator blocks do not overlap', 'indices do not overflow int']


def config(rep, cfg):
    m = build.module('pack.cc', cfg, scev=False, keep=KEEP, debug=False)
    rep.units.add('drivers/pack.cc [%s]' % m.cfg)
    nm = Norm()
    reg = Eval(m.funcs['vp__register_size']).run().ret[2]
    for name, fn in sorted(m.funcs.items()):
        mm = re.fullmatch(r'vp__k__([USI])_(\d+)_(\d+)_([WDX])_(\d)__(\w+)Major', name)
        if not mm:
            continue
        kw = int(mm[2]) * int(mm[5])
        for w, d in sorted(sizes(kw, reg, rep.tier)):
            one(rep, cfg, nm, fn, reg, mm[1], int(mm[2]), int(mm[3]), mm[4], int(mm[5]), mm[6], w, d)


def sizes(kw, reg, tier):
    if tier != 'quick':
        return {(w, d) for w in range(1, kw + 1) for d in range(1, reg + 1)}
    r = {(kw, d) for d in range(1, reg + 1)} | {(w, reg) for w in range(1, kw + 1)}
    return r | {(1, 1), (kw - 1, 1), (kw - 1, reg - 1), (kw // 2, reg // 2 + 1), (1, reg - 3)} if kw > 1 else r


def one(rep, cfg, nm, fn, REG, kind, cw, cd, order, cells, src, W, D):
    KW = cw * cells
    fmt = '%s %dx%d %s x%d' % ({'U': 'uint8', 'S': 'int8 from uint8', 'I': 'int8'}[kind], cw, cd,
                               {'W': 'WidthMajor', 'D': 'DepthMajor', 'X': 'Diagonal'}[order], cells)
    what = 'PackingRegisterBlock<%s source, %s cells>, %dx%d elements' % (src + 'Major', fmt, W, D)
    key = '%s %s %dx%d' % (src, fmt, W, D)
    where = 'internal/pack*.h: ' + what
    rep.functions.add(what)
    try:
        args = [Ptr('arg0'), V(('arg1',), 32), V(('arg2',), 32), Ptr('arg3'), C(W, 32), C(D, 32)]
        ev = Walk(fn, args=args, elt=lambda b: 32 if b == 'sums' else 8, calls=model).run()
    except Failed as x:
        rep.bad('position', key, where, 'packing fails: %s' % x, cfg)
        return
    except Unsupported as x:
        rep.unk('byte', '%s [%s]' % (where, cfg), str(x))
        return
    base = ev.note
    size = KW * REG
    want = set(range(size))
    got = set()
    stray = []
    for (b, sym), ws in ev.mem.w.items():
        for o in ws:
            if b == 'data' and sym == base.sym and o - base.off in want:
                got.add(o - base.off)
            elif b == 'data':
                stray.append(Ptr(b, sym, o))
            elif b == 'sums' and not (sym == ((V(('arg2',), 32), 4),) and 0 <= o < 4 * KW):
                stray.append(Ptr(b, sym, o))
            elif b == 'arg0':
                stray.append(Ptr(b, sym, o))
    ok = True
    if got != want or stray:
        rep.bad('position', key, where, 'byte %s of the packed block is not written' %
                sorted(want - got)[:1] if want - got else 'a store lands at %r' % stray[0], cfg)
        ok = False
    adv = nm.poly(flat(ev.ret))
    if adv != {(): size}:
        rep.bad('position', key, where, 'the packed position advances by %s instead of %d' % (
            show(nm.term(flat(ev.ret))), size), cfg)
        ok = False
    if not ok:
        return
    rep.ok('position')
    st = V(('arg1',), 32)

    def source(w, d):
        if w >= W or d >= D:
            return None
        a, b = (w, d) if src == 'Width' else (d, w)
        return V(('arg0', ((st, a),) if a else (), b), 8)
    for w in range(KW):
        total = V(('sums', ((V(('arg2',), 32), 4),), w), 32)
        for d in range(REG):
            s = source(w, d)
            pos = (d // cd * cells + w // cw) * cw * cd + offset(order, cw, cd, w % cw, d % cd)
            t = ev.mem.load(base.add((), pos), 1)
            e = C(0, 8)
            if s is not None:
                e = s if kind != 'S' else B('add', s, C(-128, 8))
                total = B('add', total, sext(s, 32) if kind == 'I' else zext(s, 32) if kind == 'U' else
                          B('add', zext(s, 32), C(-128, 32)))
            r = same(nm, t, e)
            if r is None:
                rep.ok('byte')
            elif r == 'unknown':
                rep.unk('byte', '%s element (%d, %d)' % (where, w, d), show(t)[:200])
            else:
                rep.bad('byte', key, where, 'element at width %d, depth %d is packed as %s' % (
                    w, d, show(t)[:120]), cfg)
        t = ev.mem.load(Ptr('sums', ((V(('arg2',), 32), 4),), 4 * w), 4)
        r = same(nm, t, total)
        if r is None:
            rep.ok('sum')
        elif r == 'unknown':
            rep.unk('sum', '%s slice %d' % (where, w), show(t)[:200])
        else:
            rep.bad('sum', key, where, 'sum of slice %d: %s' % (w, r), cfg)


def same(nm, t, s):
    """None | 'unknown' | description of a difference"""
    if nm.equal(t, s):
        return None
    vs = sorted(variables(t) | variables(s), key=repr)
    rnd = random.Random(3)
    for k in range(40):
        e = {v: (255, 0, 128, 127)[k] if k < 4 else rnd.getrandbits(v[1]) if rnd.random() < .6 else
             rnd.choice((0, 255, 128, 127, 129)) for v in vs}
        try:
            x, y = peval(t, e.get), peval(s, e.get)
        except ValueError:
            return 'unknown'
        if x != y:
            return 'computed %d, expected %d' % (x, y)
    return 'unknown'

"""P23: defining NDEBUG changes nothing but the assertions."""
import difflib
import os
import re
import subprocess

import build

TRUST = ['clang 18 preprocessor and AST', 'tool/asttool.cpp', 'lib/checks/asserts.py']
ACCESSORS = {'back', 'front', 'begin', 'end', 'data', 'at', 'operator[]', 'get', 'operator*',
             'operator->', 'size', 'empty', 'operator==', 'operator!=', 'operator<', 'operator()',
             'load', 'find', 'count'}
IMPURE_LIB = re.compile(r'^(pthread_(?!self|equal)|malloc|free|calloc|realloc|posix_memalign|aligned_alloc|'
                        r'f?printf|memset|memcpy|memmove|fetch_|store$|exchange|compare_exchange|push_|'
                        r'pop_|emplace|insert|erase|clear|resize|reserve|swap|reset|release|lock|unlock|'
                        r'try_lock|notify|wait|join|detach|abort|exit)')


def preprocess(cfg, ndebug, src):
    r = subprocess.run(['clang++', *build.clang_flags(cfg, ndebug),
                        '-I' + os.path.join(build.VERIF, 'drivers', 'shim_assert'), '-E', src],
                       capture_output=True, text=True, errors='replace')
    if r.returncode:
        raise build.AnalysisBroken('%s does not preprocess for %s: %s' % (src, cfg, r.stderr[-1000:]))
    out = []
    f, line = '', 0
    for l in r.stdout.split('\n'):
        m = re.match(r'^# (\d+) "([^"]*)"', l)
        if m:
            line, f = int(m[1]) - 1, os.path.normpath(m[2])
            continue
        line += 1
        if f.startswith(os.path.realpath(build.REPO) + '/') or f.startswith(build.REPO + '/'):
            t = re.sub(r'\s+', ' ', l.strip())
            if t:
                out.append((t, f.replace(build.REPO + '/', ''), line))
    return out


def effectful(text):
    """Could this source text change what the program computes?  Declarations of
    constants and assertions cannot."""
    t = re.sub(r'__vp_assert__\s*\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)\s*;?', '', text)
    t = re.sub(r'\b(const|constexpr)\b[^;=]*=[^;]*;', '', t)
    t = re.sub(r'\(void\)\s*\w+\s*;', '', t)
    t = re.sub(r'static_assert\s*\([^;]*;', '', t)
    return re.sub(r'[\s{};]', '', t) != ''


def check(rep, tier):
    rep.rule('assert-pure', 'no expression inside an assertion assigns, increments, allocates, deletes or '
             'calls a function that modifies anything outside itself', 10)
    rep.rule('ndebug-code', 'apart from assertions, the preprocessed library is the same with and without '
             'NDEBUG', 5)
    units = [(os.path.join(build.VERIF, 'drivers', 'all.cc'), build.ALL + build.EXTRA),
             (build.REPO + '/eight_bit_int_gemm/eight_bit_int_gemm.cc', ['x86', 'aarch64'])]
    for src, cfgs in units:
        name = src.replace(build.REPO + '/', '').replace(build.VERIF + '/', '')
        for cfg in cfgs:
            rep.units.add('%s@%s' % (name, cfg))
            a = preprocess(cfg, False, src)
            b = preprocess(cfg, True, src)
            ok = True
            if [x[0] for x in a] != [x[0] for x in b]:
                sm = difflib.SequenceMatcher(None, [x[0] for x in a], [x[0] for x in b], autojunk=False)
                for tag, i1, i2, j1, j2 in sm.get_opcodes():
                    if tag == 'equal':
                        continue
                    ta = ' '.join(x[0] for x in a[i1:i2])
                    tb = ' '.join(x[0] for x in b[j1:j2])
                    if not effectful(ta) and not effectful(tb):
                        continue
                    where = (a[i1:i2] + b[j1:j2])[0]
                    ok = False
                    rep.bad('ndebug-code', '%s: %s / %s' % (where[1], ta[:80], tb[:80]),
                            '%s:%d' % (where[1], where[2]),
                            'code depends on NDEBUG: without it `%s`, with it `%s`' % (ta[:160], tb[:160]), cfg)
            if ok:
                rep.ok('ndebug-code')
            rep.stat('preprocessed lines compared', len(a))
            d = build.ast(src, cfg)
            by = {}
            for f in d['funcs']:
                by.setdefault(f['name'], []).append(f)
                rep.functions.add(f['qual'])
            memo = {}

            def writes(n, stack=()):
                if n in memo:
                    return memo[n]
                if n in stack:
                    return None
                if n not in by:
                    return n if IMPURE_LIB.match(n) else None
                for f in by[n]:
                    if f['writes']:
                        memo[n] = '%s (%s)' % (f['qual'], f['loc'])
                        return memo[n]
                for f in by[n]:
                    for m in f['mentions']:
                        w = writes(m, stack + (n,))
                        if w:
                            memo[n] = w
                            return w
                memo[n] = None
                return None
            for e in d['inassert']:
                bad = None
                if e['kind'] != 'call':
                    bad = e['kind']
                elif e['callee'] in by:
                    w = writes(e['callee'])
                    bad = 'call of %s, which modifies state in %s' % (e['callee'], w) if w else None
                elif e['callee'] in ACCESSORS or not e['callee']:
                    bad = None
                elif IMPURE_LIB.match(e['callee']) or (e['known'] and not e['pure']):
                    bad = 'call of %s' % e['callee']
                rep.check('assert-pure', not bad, '%s: %s' % (e['fn'], re.sub(r'\s+', ' ', e['text'])),
                          '%s (%s)' % (e['loc'], e['fn']),
                          'assertion contains a side effect (%s) in `%s`: it disappears with NDEBUG' %
                          (bad, e['text']), cfg)
    return TRUST

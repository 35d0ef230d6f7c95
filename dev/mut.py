#!/usr/bin/env python3
"""Development aid: apply textual mutants / refactorings to a scratch copy of
/repo and run checks on it.  Usage: mut.py FILE.py [name-regex] [-j N]
FILE.py defines M = [(name, expect, [(file, old, new), ...])]; expect is a set
of property ids of which at least one must alarm, or () for quiet; CHECKS lists the
properties run."""
import os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
CHECK = os.path.join(os.path.dirname(HERE), 'check.py')

def one(m, checks):
    name, expect, edits = m
    td = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    repo = os.path.join(td, 'repo')
    shutil.copytree(os.environ.get('VP_BASE', '/repo'), repo, ignore=shutil.ignore_patterns('.git', '_build', 'test', 'doc'))
    try:
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, 'BAD EDIT (%d matches): %s' % (s.count(old), old[:60])
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        res = {}
        msgs = []
        vd = os.path.join(td, 'verif')
        os.makedirs(vd)
        for d in ('lib', 'drivers', 'tool', 'check.py', 'known_findings.json', 'witness'):
            src = os.path.join(os.path.dirname(HERE), d)
            if os.path.exists(src):
                os.symlink(src, os.path.join(vd, d))
        e = dict(os.environ, VP_REPO=repo, VP_VERIF=vd)
        os.makedirs(os.path.join(vd, 'build'))
        for t in ('irtool', 'asttool'): os.symlink(os.path.join(os.path.dirname(HERE), 'build', t), os.path.join(vd, 'build', t))
        for c in checks:
            r = subprocess.run([sys.executable, CHECK, c], capture_output=True, text=True, env=e)
            res[c] = r.returncode
            if r.returncode:
                msgs += ['    %s: %s' % (c, l[:230]) for l in (r.stdout + r.stderr).splitlines() if 'VIOLATION' not in l][:3]
        hit = {c for c, v in res.items() if v == 1}
        broken = {c for c, v in res.items() if v == 2}
        if expect:
            st = 'ok' if hit & set(expect) else 'MISSED'
        else:
            st = 'ok' if not hit and not broken else 'NOISY'
        return name, '%s alarms=%s broken=%s\n%s' % (st, sorted(hit), sorted(broken), '\n'.join(msgs))
    finally:
        shutil.rmtree(td)

def main():
    d = runpy.run_path(sys.argv[1])
    pat = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else ''
    ms = [m for m in d['M'] if re.search(pat, m[0])]
    v = '-v' in sys.argv
    with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex:
        n = bad = 0
        for name, r in ex.map(lambda m: one(m, d['CHECKS']), ms):
            n += 1
            head, _, rest = r.partition('\n')
            if not head.startswith('ok'): bad += 1
            print('%-34s %s' % (name, head))
            if rest and (v or not head.startswith('ok')): print(rest)
            sys.stdout.flush()
    print('%d mutants, %d unexpected' % (n, bad))
main()

#!/usr/bin/env python3
"""Development aid: (re)create and validate seeded/<id>/ from dev/seeds/<id>.py.
The .py defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (demo.sh
text), FILES={name: text}.  Validates in a scratch copy: builds, stable tests pass,
demo passes without and fails with the patch, which checks alarm."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '#!/bin/bash\nset -e\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\n'

def sh(cmd, cwd=None, env=None, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)

def make(sid, notest=False):
    d = runpy.run_path('%s/dev/seeds/%s.py' % (V, sid))
    out = '%s/seeded/%s' % (V, sid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    td = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        repo = td + '/repo'
        sh('git clone -q /repo %s' % repo)
        for f, old, new in d['EDITS']:
            s = open(repo + '/' + f).read()
            if s.count(old) < 1: return '%s: BAD EDIT %s' % (sid, old[:50])
            open(repo + '/' + f, 'w').write(s.replace(old, new, 1))
        diff = sh('git diff', cwd=repo).stdout
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(HEAD + d['DEMO'])
        os.chmod(out + '/demo.sh', 0o755)
        for n, t in d.get('FILES', {}).items(): open(out + '/' + n, 'w').write(t)
        json.dump(dict(property=d['PROPERTY'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']),
                  open(out + '/meta.json', 'w'), indent=1)
        msg = []
        r1 = sh('timeout 300 bash %s/demo.sh' % out, cwd=repo)
        sh('git stash', cwd=repo)
        r0 = sh('timeout 300 bash %s/demo.sh' % out, cwd=repo)
        sh('git stash pop', cwd=repo)
        msg.append('demo base=%d bug=%d' % (r0.returncode, r1.returncode))
        if r0.returncode: msg.append(r0.stdout[-500:] + r0.stderr[-500:])
        if '-v' in sys.argv: msg.append(r1.stdout[-500:] + r1.stderr[-300:])
        vd = td + '/verif'
        os.makedirs(vd + '/build')
        for x in ('lib', 'drivers', 'tool', 'check.py', 'known_findings.json', 'witness'):
            if os.path.exists(V + '/' + x): os.symlink(V + '/' + x, vd + '/' + x)
        for t in ('irtool', 'asttool'): os.symlink(V + '/build/' + t, vd + '/build/' + t)
        r = sh('%s %s/check.py %s' % (sys.executable, V, d['PROPERTY']), env=dict(os.environ, VP_REPO=repo, VP_VERIF=vd))
        msg.append('check=%d %s' % (r.returncode, '' if r.returncode == 1 else r.stdout[-200:]))
        rp = V + '/dev/seed_results.json'
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        res[sid] = r.returncode
        json.dump(res, open(rp, 'w'), indent=1, sort_keys=True)
        return '%s (%s): %s' % (sid, d['PROPERTY'], ' '.join(msg))
    finally:
        shutil.rmtree(td)

def test(sid):
    """Runs the repository's tests with the patch applied to /repo (serially)."""
    if sh('git -C /repo status --porcelain').stdout.strip(): sys.exit('/repo not clean')
    try:
        r = sh('git -C /repo apply %s/seeded/%s/patch.diff' % (V, sid))
        if r.returncode: return 'apply failed ' + r.stderr
        r = sh('bash /opt/vp/test.sh /tmp/seedout.json')
        b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        o = json.load(open('/tmp/seedout.json'))
        lost = b - set(o['passed'])
        return '%s: tests lost=%d %s' % (sid, len(lost), sorted(lost)[:3])
    finally:
        sh('git -C /repo checkout -- .')

if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(f[:-3] for f in os.listdir(V + '/dev/seeds'))
    for i in ids:
        print(make(i)); sys.stdout.flush()
        if '-t' in sys.argv: print(test(i)); sys.stdout.flush()

"""Obligations, violations and evidence of one property check."""
import json
import os
import time

from build import VERIF, AnalysisBroken

KNOWN = os.path.join(VERIF, 'known_findings.json')


class Report:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.rules = {}        # rule -> text
        self.count = {}        # rule -> obligations examined
        self.undecided = []    # (rule, site, why)
        self.viol = {}         # key -> dict
        self.units = set()     # analysed units
        self.functions = set()
        self.notes = []
        self.stats = {}
        self.minimum = {}

    # -- obligations -----------------------------------------------------
    def rule(self, name, text, minimum=1):
        """Declare a rule; `minimum` instances must be found or the analysis
        has lost its anchor (exit 2)."""
        self.rules[name] = text
        self.count.setdefault(name, 0)
        self.minimum[name] = minimum

    def ok(self, rule, n=1):
        assert rule in self.rules, rule
        self.count[rule] += n

    def bad(self, rule, key, site, msg, unit='', trace=()):
        """A violation; `key` identifies the construct independently of line
        numbers (used by the known-findings list)."""
        assert rule in self.rules, rule
        self.count[rule] += 1
        k = '%s | %s' % (rule, key)
        v = self.viol.setdefault(k, dict(rule=rule, key=key, site=site, message=msg,
                                         units=[], trace=list(trace)))
        if unit and unit not in v['units']:
            v['units'].append(unit)

    def unk(self, rule, site, why):
        assert rule in self.rules, rule
        self.count[rule] += 1
        x = (rule, site, why)
        if x not in self.undecided:
            self.undecided.append(x)

    def check(self, rule, cond, key, site, msg, unit='', trace=()):
        if cond:
            self.ok(rule)
        else:
            self.bad(rule, key, site, msg, unit, trace)
        return cond

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def merge(self, other):
        for r, t in other.rules.items():
            self.rules.setdefault(r, t)
            self.minimum.setdefault(r, other.minimum[r])
        for r, n in other.count.items():
            self.count[r] = self.count.get(r, 0) + n
        for x in other.undecided:
            if x not in self.undecided:
                self.undecided.append(x)
        for k, v in other.viol.items():
            w = self.viol.setdefault(k, v)
            w['units'] = sorted(set(w['units']) | set(v['units']))
        self.units |= other.units
        self.functions |= other.functions
        self.notes += [n for n in other.notes if n not in self.notes]
        for k, n in other.stats.items():
            self.stats[k] = self.stats.get(k, 0) + n

    def parallel(self, items, fn, workers=8, stop=True, chunk=None):
        """fn(report, item) for every item, in forked processes; the reports
        are merged in the order of the items.  With `stop`, no further items
        are started once one violates."""
        import gc
        import pickle
        import tempfile

        # terms are tuples without cycles: frequent full collections only cost time and copied pages
        gc.collect()
        gc.freeze()
        gc.set_threshold(500000, 20, 100)
        items = list(items)
        if chunk is None:
            chunk = max(1, min(6, len(items) // (4 * workers)))
        chunks = [items[k:k + chunk] for k in range(0, len(items), chunk)]
        running, done, tries = {}, {}, {}
        queue = list(range(len(chunks)))[::-1]
        violated = False
        with tempfile.TemporaryDirectory(dir=os.path.join(VERIF, 'build')) as td:
            while queue or running:
                while queue and len(running) < workers and not (violated and stop):
                    k = queue.pop()
                    out = os.path.join(td, str(k))
                    pid = os.fork()
                    if not pid:
                        code = 1
                        try:
                            r = self.child(fn, chunks[k])
                            with open(out, 'wb') as f:
                                pickle.dump(r, f)
                            code = 0
                        finally:
                            os._exit(code)
                    running[pid] = k
                if not running:
                    break
                pid, status = os.wait()
                k = running.pop(pid, None)
                if k is None:
                    continue
                if status:
                    tries[k] = tries.get(k, 0) + 1
                    if tries[k] > 2:
                        raise AnalysisBroken('a worker process of the analysis was ended')
                    queue.append(k)
                    workers = max(2, workers // 2)
                    continue
                with open(os.path.join(td, str(k)), 'rb') as f:
                    r = pickle.load(f)
                if isinstance(r, Exception):
                    for p in running:
                        os.kill(p, 9)
                        os.waitpid(p, 0)
                    raise r
                done[k] = r
                violated |= bool(r.viol)
        for k in sorted(done):
            self.merge(done[k])
        if violated and stop:
            self.notes.append('no further cases were examined after the first violating one')

    def child(self, fn, items):
        r = Report(self.prop, self.tier, self.seed)
        r.rules = dict(self.rules)
        r.minimum = dict(self.minimum)
        r.count = {x: 0 for x in self.rules}
        try:
            for it in items:
                try:
                    fn(r, it)
                except (KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError,
                        RecursionError):
                    # a construct the models do not foresee: no statement about this case
                    import traceback
                    r.unk(next(iter(r.rules)), 'case %s' % (str(it[2:])[:120],),
                          'construct not modelled: ' + traceback.format_exc()[-600:])
                if r.viol:
                    break
        except AnalysisBroken as e:
            return e
        except Exception:
            import traceback
            return RuntimeError(traceback.format_exc())
        return r

    # -- result ----------------------------------------------------------
    def finish(self, level, trusted):
        known = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for e in json.load(f).get('findings', []):
                    if e['property'] == self.prop:
                        known[e['key']] = e
        if not self.viol:
            for r, n in self.minimum.items():
                if self.count[r] < n:
                    raise AnalysisBroken('rule %s found %d instances, expected at least %d: '
                                         'its anchor is gone' % (r, self.count[r], n))
        new = {k: v for k, v in self.viol.items() if k not in known}
        old = {k: v for k, v in self.viol.items() if k in known}
        n = sum(self.count.values())
        dis = n - len(self.undecided) - len(self.viol)
        cov = dict(
            obligations=n, discharged=dis,
            checker_cmd='python3 /verif/check.py %s' % self.prop,
            trusted_base=trusted,
            explanation='Static analysis of /repo as compiled in this run; obligations are '
                        'instances of the rules below found in the analysed units.',
            rules=[dict(rule=r, text=t, instances=self.count[r]) for r, t in self.rules.items()],
            analysed_units=sorted(self.units),
            analysed_functions=len(self.functions),
            functions=sorted(self.functions)[:60],
            stats=self.stats,
            undecided=[dict(rule=r, site=s, why=w) for r, s, w in self.undecided][:50],
            undecided_count=len(self.undecided),
            known_findings=[dict(key=k, site=v['site'], message=v['message'])
                            for k, v in old.items()],
        )
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.notes,
                  violations=[dict(v, key=k) for k, v in new.items()])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        for k, v in old.items():
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, v['site'], v['message']))
        if new:
            rp = os.path.join(VERIF, 'evidence', self.prop + '.violation.txt')
            with open(rp, 'w') as f:
                for k, v in new.items():
                    f.write('%s\n  at %s\n  %s\n  rule: %s\n  units: %s\n' % (
                        k, v['site'], v['message'], self.rules[v['rule']], ', '.join(v['units'])))
                    for t in v['trace']:
                        f.write('    %s\n' % (t,))
            for k, v in new.items():
                print('%s: %s [%s] %s' % (self.prop, v['site'], v['rule'], v['message']))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('%s: held: %d obligations, %d discharged, %d undecided, %d known findings, %.1fs' % (
            self.prop, n, dis, len(self.undecided), len(old), time.time() - self.t0))
        return 0

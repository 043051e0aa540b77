"""Verdicts, evidence, known findings."""
import json, os, re, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.violations = []      # (key, where, message)
        self.inst = {}            # kind -> set/count
        self.rules = []
        self.notes = []
        self.t0 = time.time()
        self.configs = {}
        self.fns = set()

    def v(self, key, where, msg):
        key = re.sub(r'\s+', '_', key)
        if not any(k == key for k, w, m in self.violations):
            self.violations.append((key, where, msg))

    def count(self, kind, item=1):
        """record a checked instance (an obligation discharged or violated)"""
        if isinstance(item, int) and not isinstance(item, bool):
            self.inst[kind] = self.inst.get(kind, 0) + item
        else:
            self.inst.setdefault(kind, set()).add(item)

    def n(self, kind):
        x = self.inst.get(kind, 0)
        return x if isinstance(x, int) else len(x)

    def rule(self, text):
        self.rules.append(text)

    def need(self, kind, least):
        from program import AnalysisError
        if self.n(kind) < least:
            raise AnalysisError('%s: only %d instances of "%s" found (at least %d expected): the anchors of this analysis are gone'
                                % (self.prop, self.n(kind), kind, least))

    def analysed(self, fns):
        self.fns |= set(fns)


def known_findings():
    p = os.path.join(ROOT, 'known_findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def finish(rep, stats, seed):
    known = known_findings()
    rc = 0
    new, old = [], []
    for key, where, msg in rep.violations:
        (old if (rep.prop, key) in known else new).append((key, where, msg))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
    for key, where, msg in old:
        print('KNOWN-FINDING: property=%s %s (%s: %s)' % (rep.prop, known[(rep.prop, key)], where, key))
    rp = os.path.join(ROOT, 'replay', rep.prop + '.json')
    if new:
        json.dump({'property': rep.prop, 'findings': [{'key': k, 'where': w, 'message': m} for k, w, m in new],
                   'replay': 'python3 %s/analysis/check.py %s' % (ROOT, rep.prop)}, open(rp, 'w'), indent=1)
        for k, w, m in new:
            print('%s: %s: %s [%s]' % (rep.prop, w, m, k))
        print('VIOLATION property=%s replay=%s' % (rep.prop, rp))
        rc = 1
    cov = {'explanation': ' '.join(rep.rules) + ' ' + ' '.join(rep.notes)}
    cov['instances'] = {k: (x if isinstance(x, int) else len(x)) for k, x in sorted(rep.inst.items())}
    cov['samples'] = {k: sorted(map(str, x))[:4] for k, x in sorted(rep.inst.items()) if not isinstance(x, int)}
    total = sum(cov['instances'].values())
    cov['functions_analysed'] = len(rep.fns)
    cov['program'] = rep.configs
    ev = {'property': rep.prop, 'tier': rep.tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - rep.t0, 2),
          'violations': len(new)}
    return rc, ev, total

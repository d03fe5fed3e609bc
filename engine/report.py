"""Obligations, violations, known findings, evidence."""
import json, os, time, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obl, self.undecided, self.viol, self.notes = [], [], [], []
        self.analysed = {}
        self.assumptions = []
        self.rule = ''
        self.floors = []
    def ok(self, what):
        self.obl.append((what, 'holds'))
    def unknown(self, what, why):
        self.obl.append((what, 'undecided'))
        self.undecided.append('%s: %s' % (what, why))
    def bad(self, key, where, msg):
        """key: stable identification of the failing instance (backend/op/config)"""
        self.obl.append((key, 'violated'))
        self.viol.append({'key': key, 'where': where, 'message': msg})
    def check(self, cond, key, where, msg):
        if cond:
            self.ok(key)
        else:
            self.bad(key, where, msg)
        return cond
    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n
    def floor(self, name, minimum):
        """the rule must have matched at least this many instances, else the analysis is broken"""
        self.floors.append((name, minimum))
    def finish(self):
        known = []
        p = os.path.join(ROOT, 'known_findings.json')
        if os.path.exists(p):
            known = [k for k in json.load(open(p))['findings'] if k['property'] == self.prop and k['status'] == 'known']
        kk = {k['key'] for k in known}
        hit = [k for k in known if any(v['key'] == k['key'] for v in self.viol)]
        new = [v for v in self.viol if v['key'] not in kk]
        broken = [(n, m, self.analysed.get(n, 0)) for n, m in self.floors if self.analysed.get(n, 0) < m]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': 'other',
              'coverage': {'explanation': self.rule,
                           'obligations': len(self.obl),
                           'held': sum(1 for _, s in self.obl if s == 'holds'),
                           'undecided': len(self.undecided),
                           'violated': len(self.viol),
                           'analysed': self.analysed},
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new),
              'assumptions': self.assumptions}
        if broken:
            ev['coverage']['below_usual_coverage'] = ['%s: %d of at least %d' % (n, g, m) for n, m, g in broken]
        if self.undecided:
            ev['coverage']['undecided_items'] = self.undecided[:40]
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        samp = [w for w, s in self.obl if s == 'holds']
        ev['coverage']['obligation_sample'] = samp[:: max(1, len(samp) // 40)][:40]
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s [%s]: %d obligations, %d held, %d undecided, %d violated; analysed %s; %.1fs' % (
            self.prop, self.tier, len(self.obl), ev['coverage']['held'], len(self.undecided), len(self.viol),
            json.dumps(self.analysed), time.time() - self.t0))
        for k in hit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if new:
            rp = os.path.join(ROOT, 'evidence', self.prop + '.violation.json')
            with open(rp, 'w') as f:
                json.dump(new, f, indent=1)
            for v in new[:12]:
                print('  %s\n    at %s\n    %s' % (v['key'], v['where'], v['message']))
            if len(new) > 12:
                print('  ... and %d more (see %s)' % (len(new) - 12, rp))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        for n, m, g in broken:
            print('UNDECIDED: %s: %d instances analysed, usually at least %d' % (n, g, m))
        if not ev['coverage']['held']:
            print('UNDECIDED: no obligation could be decided on this tree')
        return 0

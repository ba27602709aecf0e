"""Obligations, violations, known findings, evidence."""
import json, os, sys, time
from common import ROOT

KNOWN = os.path.join(ROOT, 'known_findings.json')


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obs = []          # (rule, fn, ok, msg, where)
        self.viol = []
        self.stat = {'functions': set(), 'paths': 0, 'call_sites': set(), 'instructions': 0}
        self.rules = {}
        self.samples = []
        self.assumptions = []

    def rule(self, name, text):
        self.rules[name] = text

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def covered(self, fn, paths):
        """fn: engine.Fn; paths: engine.Path list"""
        if fn.full not in self.stat['functions']:
            self.stat['functions'].add(fn.full)
            self.stat['instructions'] += fn.ninstr()
            self.stat['paths'] += len(paths)
            for p in paths:
                for e in p.events:
                    if e.kind in ('call', 'store') and e.loc:
                        self.stat['call_sites'].add((e.loc.repo(), e.name))

    def ob(self, rule, fn, ok, msg='', where='', path=None):
        self.obs.append((rule, fn, bool(ok), where))
        if ok:
            if len(self.samples) < 12 and (not self.samples or self.samples[-1]['rule'] != rule):
                self.samples.append({'rule': rule, 'function': fn, 'at': where, 'obligation': msg[:300]})
        else:
            self.viol.append((rule, fn, msg, where, path))
        return ok

    def finish(self, level):
        known = []
        if os.path.exists(KNOWN):
            known = json.load(open(KNOWN)).get('findings', [])
        new, old = [], {}
        for v in self.viol:
            for k in known:
                if k['property'] == self.prop and k['rule'] == v[0] and k['function'] == v[1] and k.get('match', '') in v[2]:
                    old[id(k)] = k
                    break
            else:
                new.append(v)
        for k in old.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        byrule = {}
        for r, fn, ok, w in self.obs:
            c = byrule.setdefault(r, {'obligations': 0, 'discharged': 0})
            c['obligations'] += 1
            c['discharged'] += int(ok)
        from engine import AnalysisError
        for r in self.rules:
            if r not in byrule and not new:
                raise AnalysisError('rule %s matched no instance (vanished anchor)' % r)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': {
                  'explanation': 'Static analysis of the IR of /repo\'s current sources: all paths (loops cut at their header) of the listed functions were '
                                 'summarised as effect sequences and every rule below was decided on every instance.',
                  'functions_analysed': sorted(self.stat['functions']),
                  'ir_instructions': self.stat['instructions'], 'paths': self.stat['paths'],
                  'call_sites': len(self.stat['call_sites']),
                  'obligations': len(self.obs), 'discharged': sum(1 for o in self.obs if o[2]),
                  'rules': {r: dict(text=self.rules.get(r, ''), **c) for r, c in byrule.items()},
                  'samples': self.samples},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if new:
            rp = os.path.join(ROOT, 'evidence', self.prop + '.violations.txt')
            with open(rp, 'w') as f:
                for rule, fn, msg, where, path in new:
                    f.write('VIOLATION of rule %s: %s\n  in %s at %s\n  %s\n' % (rule, self.rules.get(rule, ''), fn, where, msg))
                    if path is not None:
                        f.write('  path:\n' + path.describe(200) + '\n')
                    f.write('\n')
            seen = set()
            for rule, fn, msg, where, path in new:
                k = (rule, fn, msg)
                if k in seen:
                    continue
                seen.add(k)
                print('  [%s] %s: %s (at %s)' % (rule, fn, msg, where))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('%s: %d obligations over %d paths in %d functions hold (%.1fs)' % (self.prop, len(self.obs), self.stat['paths'], len(self.stat['functions']), time.time() - self.t0))
        return 0

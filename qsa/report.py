"""Obligation bookkeeping, known findings, evidence and exit status."""
import hashlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def load_known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf8'):
            line = line.rstrip('\n')
            if not line.startswith('known: property='):
                continue
            head, _, what = line.partition(' :: ')
            p, _, key = head[len('known: property='):].partition(' key=')
            if p == prop:
                out[key] = what
    return out


class Finding(object):
    def __init__(self, rule, construct, outcome, msg, loc=None):
        self.rule, self.construct, self.outcome, self.msg, self.loc = rule, construct, outcome, msg, loc

    @property
    def key(self):
        return '%s|%s|%s' % (self.rule, self.construct, self.outcome)


class Report(object):
    def __init__(self, prop, level='other', floor=None):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.obl = 0
        self.ok = 0
        self.und = {}
        self.findings = {}
        self.samples = []
        self.rules = {}
        self.cov = {}
        self.assumptions = []
        self.floors = floor or {}
        self.counts = {}

    def rule(self, r):
        return self.rules.setdefault(r, {'instances': 0, 'held': 0, 'undecided': 0, 'violated': 0})

    def hold(self, rule, construct, note=None):
        self.obl += 1
        self.ok += 1
        d = self.rule(rule)
        d['instances'] += 1
        d['held'] += 1
        if d['held'] <= 2:
            self.samples.append({'rule': rule, 'instance': construct, 'verdict': 'held', 'note': note or ''})

    def undecided(self, rule, construct, why):
        self.obl += 1
        d = self.rule(rule)
        d['instances'] += 1
        d['undecided'] += 1
        k = '%s: %s' % (rule, str(why)[:100])
        self.und.setdefault(k, []).append(construct)

    def violate(self, rule, construct, outcome, msg, loc=None):
        self.obl += 1
        d = self.rule(rule)
        d['instances'] += 1
        d['violated'] += 1
        outcome = str(outcome)
        if len(outcome) > 160:
            outcome = outcome[:120] + '#' + hashlib.sha1(outcome.encode()).hexdigest()[:12]
        outcome = outcome.replace('\n', ' ').replace(' :: ', ' ')
        f = Finding(rule, construct, outcome, msg, loc)
        self.findings.setdefault(f.key, f)

    def finish(self, explanation, units=None, broken=None):
        known = load_known(self.prop)
        new = []
        nk = 0
        for k in sorted(self.findings):
            f = self.findings[k]
            if k in known:
                nk += 1
                print('KNOWN-FINDING: property=%s %s' % (self.prop, known[k] or f.msg))
            else:
                new.append(f)
        if broken is None:
            for r, n in self.floors.items():
                have = self.rules.get(r, {'instances': 0, 'undecided': 0})
                dec = have['instances'] - have['undecided']
                if dec < n:
                    broken = 'rule %s decided %d instances, at least %d are required' % (r, dec, n)
        cov = {
            'explanation': explanation,
            'obligations_total': self.obl,
            'held': self.ok,
            'undecided': sum(len(v) for v in self.und.values()),
            'known_findings_seen': nk,
            'rules': self.rules,
            'undecided_reasons': {k: len(v) for k, v in sorted(self.und.items())},
            'samples': self.samples[:12],
        }
        cov.update(self.cov)
        if units is not None:
            cov['analysed'] = units
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        if broken:
            ev['coverage']['analysis_broken'] = broken
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        if new:
            rp = os.path.join(VERIF, 'evidence', self.prop + '.violations.txt')
            with open(rp, 'w') as f:
                for x in new:
                    f.write('%s\n   rule: %s\n   at: %s\n   key: %s\n' % (x.msg, x.rule, fmtloc(x.loc), x.key))
            for x in new[:40]:
                print('%s [%s] at %s' % (x.msg, x.rule, fmtloc(x.loc)))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if broken:
            print('ANALYSIS-BROKEN property=%s %s' % (self.prop, broken))
            return 3
        print('OK property=%s obligations=%d held=%d undecided=%d known=%d (%.1fs)' % (
            self.prop, self.obl, self.ok, cov['undecided'], nk, time.time() - self.t0))
        return 0


def fmtloc(loc):
    if not loc:
        return '?'
    return '%s:%s (%s)' % (loc[0], loc[2], loc[1])

"""Obligation bookkeeping, evidence files, known findings, exit status."""
import json
import os
import sys
import time

from . import facts

VERIF = facts.VERIF
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')


def known_findings(pid):
    """entries  `known: property=<id> key=<key> | text`"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known:'):
                head, _, text = line[6:].partition('|')
                kv = dict(x.split('=', 1) for x in head.split())
                if kv.get('property') == pid:
                    out[kv['key']] = text.strip()
    return out


class Report:
    last = None

    def __init__(self, pid, rule, assumptions=()):
        Report.last = self
        self.pid = pid
        self.rule = rule
        self.obs = []
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.analysed = set()
        self.counts = {}

    def ob(self, key, verdict, where, rule, detail=None):
        """one obligation.  verdict HOLD / VIOLATED / UNDECIDED"""
        self.obs.append((key, verdict, where, rule, detail))

    def abort(self, why):
        self.ob('analysis ended early', 'UNDECIDED', '-', self.rule, why[-300:])
        return self.finish()

    def saw(self, *names):
        self.analysed.update(names)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def floor(self, what, n, least):
        """an anchor set must not silently shrink to nothing"""
        if n < least:
            self.ob('anchor:' + what, 'VIOLATED', what, 'the operations this property is about must exist',
                    'found %d, expected at least %d' % (n, least))

    def finish(self):
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        known = known_findings(self.pid)
        bad, kn, und, ok = [], [], [], []
        for o in self.obs:
            if o[1] == 'HOLD':
                ok.append(o)
            elif o[1] == 'UNDECIDED':
                und.append(o)
            elif o[0].replace(' ', '_') in known:
                kn.append(o)
            else:
                bad.append(o)
        os.makedirs(EVID, exist_ok=True)
        ev = {
            'property': self.pid, 'tier': tier, 'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': self.rule,
                'obligations': len(self.obs), 'discharged': len(ok), 'undecided': len(und),
                'known_findings': len(kn),
                'functions_analysed': len(self.analysed),
                'counts': self.counts,
                'samples': [{'obligation': o[0], 'where': o[2], 'rule': o[3]} for o in (ok[:3] + ok[len(ok) // 2:len(ok) // 2 + 2])],
                'undecided_obligations': [{'obligation': o[0], 'where': o[2], 'why': str(o[4])[:200]} for o in und[:40]],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(bad),
        }
        json.dump(ev, open(os.path.join(EVID, self.pid + '.json'), 'w'), indent=1, default=str)
        for o in kn:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, o[0], known[o[0].replace(' ', '_')]))
        print('%s: %d obligations over %d functions; %d hold, %d undecided, %d known, %d violated (%.1fs)' % (
            self.pid, len(self.obs), len(self.analysed), len(ok), len(und), len(kn), len(bad), time.time() - self.t0))
        if os.environ.get('SA_VERBOSE'):
            for o in und:
                print('  undecided %s @ %s: %s' % (o[0], o[2], str(o[4])[:int(os.environ['SA_VERBOSE'])]))
        rp = os.path.join(EVID, self.pid + '.violation.json')
        if os.path.exists(rp):
            os.remove(rp)
        if bad:
            json.dump([{'obligation': o[0], 'where': o[2], 'rule': o[3], 'detail': o[4]} for o in bad],
                      open(rp, 'w'), indent=1, default=str)
            for o in bad[:12]:
                print('  violated: %s at %s\n     rule: %s\n     %s' % (o[0], o[2], o[3], str(o[4])[:400]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0

"""Obligations, known findings, evidence."""
import json, os, re, time
from collections import OrderedDict, Counter, defaultdict
from .build import Broken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Rep:
    def __init__(self, prop, P=None):
        self.prop = prop
        self.P = P
        self.obs = OrderedDict()      # (rule, instance) -> dict
        self.rules = OrderedDict()
        self.floors = {}
        self.analysed = defaultdict(int)
        self.notes = []
        self.fns = set()

    def rule(self, rid, text, floor=1):
        """declare a rule; floor: fewest instances below which the analysis counts as broken"""
        self.rules[rid] = text
        self.floors[rid] = floor

    def ob(self, rule, instance, ok, loc, msg=''):
        if rule not in self.rules:
            raise Broken('undeclared rule %s' % rule)
        k = (rule, instance)
        o = self.obs.get(k)
        if o is None:
            self.obs[k] = {'rule': rule, 'instance': instance, 'ok': bool(ok), 'loc': loc, 'msg': '' if ok else msg, 'n': 1}
        else:
            o['n'] += 1
            if not ok and o['ok']:
                o.update(ok=False, loc=loc, msg=msg)
        return ok

    def saw(self, f):
        if f is not None:
            self.fns.add(f.q if hasattr(f, 'q') else str(f))
        return f

    def need(self, q, pred=None):
        """a function the property is anchored in; its absence breaks the analysis"""
        l = [f for f in self.P.fns(q) if pred is None or pred(f)]
        if not l:
            raise Broken('anchor function %s not found' % q)
        for f in l:
            self.saw(f)
        return l[0]

    def finish(self):
        bad = [o for o in self.obs.values() if not o['ok']]
        if bad:
            return bad
        cnt = Counter(o['rule'] for o in self.obs.values())
        for r, n in self.floors.items():
            if cnt[r] < n:
                raise Broken('rule %s matched %d instances, fewer than the %d confirmed by hand' % (r, cnt[r], n))
        return bad


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for line in open(p) if os.path.exists(p) else ():
        m = re.match(r'finding: property=(\S+) rule=(\S+) instance=(.*?) :: (.*)$', line.rstrip('\n'))
        if m and m.group(1) == prop:
            out.append({'rule': m.group(2), 'instance': m.group(3), 'text': m.group(4)})
    return out

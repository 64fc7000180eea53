#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property on /repo's current tree.
exit 0: holds (known findings listed); exit 1: VIOLATION; exit 2: the analysis could not be carried out."""
import sys, os, time, json, importlib, argparse
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa import build, ir
from sa.report import Rep, known_findings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    try:
        m, stats = build.model()
        P = ir.Program(m)
        mod = importlib.import_module('rules.' + a.prop.lower())
        rep = Rep(a.prop, P)
        try:
            mod.run(P, rep)
        except Exception:
            if not any(not o['ok'] for o in rep.obs.values()):
                raise       # a violation found before the analysis got stuck is reported nevertheless
        bad = rep.finish()
        extra = {}
        if tier == 'thorough':
            from sa import thorough
            extra = thorough.run(a.prop, mod, m, P, rep)
            bad = bad + extra.pop('violations', [])
    except build.Broken as e:
        print('ANALYSIS BROKEN property=%s: %s' % (a.prop, e), file=sys.stderr)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        print('ANALYSIS BROKEN property=%s: internal error' % a.prop, file=sys.stderr)
        return 2
    known = known_findings(a.prop)
    viol, kf = [], []
    for o in bad:
        k = next((k for k in known if k['rule'] == o['rule'] and k['instance'] == o['instance']), None)
        (kf if k else viol).append((o, k))
    for o, k in kf:
        print('KNOWN-FINDING: property=%s rule=%s %s (%s): %s' % (a.prop, o['rule'], o['instance'], o['loc'], k['text']))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    per = {}
    for o in rep.obs.values():
        d = per.setdefault(o['rule'], {'rule': rep.rules[o['rule']], 'instances': 0, 'sites': 0, 'failed': 0})
        d['instances'] += 1
        d['sites'] += o['n']
        d['failed'] += (not o['ok'])
    ev = {
        'property': a.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'static analysis of the LLVM IR (clang 18 -O0 -g, mem2reg, lambdas and unknown helpers inlined) of every '
                           'translation unit of the library and the command line tool, rebuilt from the current tree; an obligation is one '
                           'rule applied to one construct; ' + ('all obligations were decided.' if not rep.notes else '%d could not be decided.' % len(rep.notes)),
            'translation_units': len(build.units(build.REPO)) if hasattr(build, 'REPO') else stats.get('units', 0),
            'functions_in_program': len(P.functions),
            'call_sites_in_program': sum(1 for f in P.functions.values() for _ in f.calls()),
            'functions_anchored': sorted(rep.fns),
            'obligations': len(rep.obs), 'sites': sum(o['n'] for o in rep.obs.values()),
            'rules': per,
            'instances': [{k: o[k] for k in ('rule', 'instance', 'ok', 'loc', 'n')} for o in rep.obs.values()],
            'known_findings': len(kf),
            'undecided': rep.notes,
            **extra,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1)
    if a.v:
        for o in rep.obs.values():
            print('%-4s %s | %s | %s %s' % ('ok' if o['ok'] else 'FAIL', o['rule'], o['instance'], o['loc'], o['msg']))
    for n in rep.notes[:20]:
        print(n)
    print('%s: %d rules, %d obligations at %d sites, %d functions anchored, %d known findings, %d violations, %.1fs' % (
        a.prop, len(rep.rules), len(rep.obs), sum(o['n'] for o in rep.obs.values()), len(rep.fns), len(kf), len(viol), time.time() - t0))
    if viol:
        rp = os.path.join(HERE, 'evidence', a.prop + '.violation.txt')
        with open(rp, 'w') as f:
            f.write('property %s\nre-run: python3 /verif/check.py %s -v\n' % (a.prop, a.prop))
            for o, _ in viol:
                f.write('\n%s: rule %s, instance %s\n  rule: %s\n  %s\n' % (o['loc'], o['rule'], o['instance'], rep.rules.get(o['rule'], ''), o['msg']))
        for o, _ in viol:
            print('%s: rule %s broken at %s: %s' % (o['loc'], o['rule'], o['instance'], o['msg']))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    return 0


sys.exit(main())

"""Thorough tier: the rules are run as in the quick tier, and their sensitivity is measured by small edits of the extracted
program: for each anchored function a comparison is turned, a branch is swapped, a store or a call without result is dropped,
a constant is moved by one, and the rules are asked again.  Edits that no rule notices are listed in the evidence (many are
equivalent or about other properties); they are no violations.  Nothing of the project is executed."""
import copy, json, os, random, signal, time, multiprocessing as mp
from .build import Broken
from . import ir, build
from .report import Rep

SWAP = {'slt': 'sle', 'sle': 'slt', 'sgt': 'sge', 'sge': 'sgt', 'ult': 'ule', 'ule': 'ult', 'ugt': 'uge', 'uge': 'ugt', 'eq': 'ne', 'ne': 'eq'}
BUDGET = float(os.environ.get('THOROUGH_S', '420'))
NOISE = ('__gnu_cxx', 'std::allocator', '::with', '::add_detail', 'AddMessage', 'AddDebugMessage', 'Status', 'llvm.', '~', 'basic_string', 'operator delete', '__cxa_', '__clang_', 'DetailedException', 'boost::filesystem')


def preds(raw):
    return [k for k in ('pred', 'p', 'c') if isinstance(raw.get(k), str) and raw[k] in SWAP]


def edits(P, f):
    """(description, block, index, kind) of the edits of one function"""
    out = []
    for bi, b in enumerate(f.raw['b']):
        for ii, r in enumerate(b):
            w = '%s:%s' % (r['l'][0], r['l'][1]) if r.get('l') else f.q
            if r['op'] == 'icmp' and preds(r):
                out.append(('comparison at %s' % w, bi, ii, 'cmp'))
            elif r['op'] == 'br' and len(r.get('s', ())) == 2 and r['s'][0] != r['s'][1]:
                out.append(('branch at %s' % w, bi, ii, 'br'))
            elif r['op'] == 'store' and r.get('l'):
                out.append(('store at %s dropped' % w, bi, ii, 'drop'))
            elif r['op'] in ('call', 'invoke') and r.get('t') == 'void' and r.get('l') and r.get('f'):
                q = P.qname(r['f'])
                if not any(n in q for n in NOISE):
                    out.append(('call of %s at %s dropped' % (q, w), bi, ii, 'drop' if r['op'] == 'call' else 'invoke'))
            if r['op'] in ('add', 'sub', 'mul', 'shl', 'lshr', 'and', 'udiv', 'urem', 'icmp') and r.get('l'):
                for k, o in enumerate(r.get('o', ())):
                    if isinstance(o, dict) and o.get('k') == 'i' and isinstance(o.get('v'), int) and abs(o['v']) > 1:
                        out.append(('constant %d at %s' % (o['v'], w), bi, ii, ('const', k)))
    return out


def apply(m, name, e):
    m2 = dict(m)
    m2['functions'] = dict(m['functions'])
    raw = dict(m['functions'][name])
    raw['b'] = [list(b) for b in raw['b']]
    b = raw['b'][e[1]]
    r = copy.deepcopy(b[e[2]])
    if e[3] == 'cmp':
        k = preds(r)[0]
        r[k] = SWAP[r[k]]
    elif e[3] == 'br':
        r['s'] = r['s'][::-1]
    elif e[3] == 'drop':
        r = None
    elif e[3] == 'invoke':
        r = {'i': r['i'], 'l': r['l'], 'op': 'br', 's': [r['n']], 't': 'void'}
    else:
        r['o'][e[3][1]]['v'] += 1
    if r is None:
        del b[e[2]]
    else:
        b[e[2]] = r
    m2['functions'][name] = raw
    return m2


_ctx = None


class Late(Exception):
    pass


def one(i):
    prop, mod, m, jobs, known, limit = _ctx
    f, e = jobs[i]
    if time.time() > limit:
        return i, 'not run'

    def late(*a):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(180)
    try:
        P = ir.Program(apply(m, f, e))
        rep = Rep(prop, P)
        mod.run(P, rep)
        bad = [o for o in rep.finish() if (o['rule'], o['instance']) not in known]
        return i, 'violation' if bad else 'unnoticed'
    except Broken:
        return i, 'broken'
    except Late:
        return i, 'not run'
    except Exception as x:
        return i, 'broken'
    finally:
        signal.alarm(0)


def run(prop, mod, m, P, rep):
    global _ctx
    from .report import known_findings
    names = [n for n, f in P.functions.items() if f.q in rep.fns]
    jobs = [(n, e) for n in sorted(names) for e in edits(P, P.functions[n])]
    random.Random(int(os.environ.get('VERIF_SEED') or 1)).shuffle(jobs)
    known = {(k['rule'], k['instance']) for k in known_findings(prop)}
    _ctx = (prop, mod, m, jobs, known, time.time() + BUDGET)
    res = {}
    from . import lib
    serial = lib.parallel
    lib.parallel = lambda fn, items: [fn(t) for t in items]
    if hasattr(mod, 'parallel'):
        mod.parallel = lib.parallel
    try:
        with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
            for i, r in pool.imap_unordered(one, range(len(jobs)), 1):
                res[i] = r
    finally:
        lib.parallel = serial
        if hasattr(mod, 'parallel'):
            mod.parallel = serial
    n = {k: sum(1 for r in res.values() if r == k) for k in ('violation', 'broken', 'unnoticed', 'not run')}
    un = sorted('%s: %s' % (P.functions[jobs[i][0]].q, jobs[i][1][0]) for i, r in res.items() if r == 'unnoticed')
    print('%s: %d edits of the extracted program in %d functions: %d noticed as violation, %d as broken analysis, %d unnoticed, %d not run' % (
        prop, len(jobs), len(names), n['violation'], n['broken'], n['unnoticed'], n['not run']))
    return {'edits_of_the_extracted_program': {'total': len(jobs), 'functions': len(names), **n, 'unnoticed_list': un[:400]}}

"""Vocabulary shared by the rules."""
import re
from .ir import walk, show, truth, neg, mk_cmp, lin_of, lin_add, lin_scale, lin_make, is_field_load, mentions_field
from .build import Broken

NS = 'System::Classes::'
STREAM_WRITE = re.compile(r'^System::Classes::T(Stream|FileStream|WrapperStream|MemoryStream|HandleStream)::(Write|WriteBuffer|WriteString|SetSize|CopyFrom)$')
STREAM_READ = re.compile(r'^System::Classes::T(Stream|FileStream|WrapperStream|MemoryStream|HandleStream)::(Read|ReadBuffer)$')
STREAM_SEEK = re.compile(r'^System::Classes::T(Stream|FileStream|WrapperStream|MemoryStream|HandleStream)::(Seek|SetPosition)$')


def fieldname(e):
    """(struct, field) of an address or of a load of it"""
    if e[0] == 'ld':
        e = e[1]
    if e[0] == 'fld':
        return (e[2], e[3])
    return None


def stores(P, struct, field):
    out = []
    for f in P.functions.values():
        for x in f.all():
            if x.op == 'store':
                a = f.e(x.ops[1])
                if a[0] == 'fld' and a[2] == struct and a[3] == field:
                    out.append(x)
    return out


def facts(x):
    """normalised conditions (truth folded in) that hold when x executes"""
    return [truth(c, t) for c, t in x.fn.facts(x)]


def has_fact(x, pred):
    return any(pred(c) for c in facts(x))


def false_field(struct, field):
    """condition: the boolean field is false"""
    def p(c):
        if c[0] == 'not' and is_field_load(c[1], struct, field):
            return True
        return c[0] == 'cmp' and c[1] == 'eq' and (c[3] == ('c', 0) and is_field_load(c[2], struct, field) or c[2] == ('c', 0) and is_field_load(c[3], struct, field))
    return p


def true_field(struct, field):
    def p(c):
        if is_field_load(c, struct, field):
            return True
        return c[0] == 'cmp' and c[1] == 'ne' and (c[3] == ('c', 0) and is_field_load(c[2], struct, field) or c[2] == ('c', 0) and is_field_load(c[3], struct, field))
    return p


def is_expr(e0):
    def p(c):
        return c == e0
    return p


def loc(x):
    return 'src/' + x.loc if not x.loc.startswith('/') else x.loc


def floc(f):
    return 'src/%s:%d' % (f.file, f.line)


def calls_in(f, rx):
    """calls of f whose possible targets match the regex"""
    P = f.prog
    return [x for x in f.calls() if any(rx.match(q) for q in P.target_qs(x))]


def rx(s):
    return re.compile(s)


def receiver(x):
    """expression of the object a member call is made on (sret adds one leading argument)"""
    return x.fn.e(x.ops[0]) if x.ops else None


def path_lines(path):
    out = []
    for x in path:
        l = x.loc
        if not out or out[-1] != l:
            out.append(l)
    return ' -> '.join(out[-8:])


def project(f):
    return not f.file.startswith('/')


def throwing_block(f, b, seen=None):
    """every normal continuation of block b ends in a throw/noreturn (no return reachable)"""
    r = f.reachable_from(b, f.nsucc) | {b}
    return not any(f.blocks[i][-1].op == 'ret' for i in r)


def enum_values(P, name):
    """name -> value of an enumeration of the program"""
    e = P.enums.get(name)
    if not e:
        raise Broken('enumeration %s not found' % name)
    return dict(e['vals'])


def refold(e, rep):
    """rebuild an expression with rep(sub-expression) -> replacement or None, folding constants"""
    if not isinstance(e, tuple) or not e:
        return e
    r = rep(e)
    if r is not None:
        return r
    k = e[0]
    from .ir import lin_make
    if k == 'lin':
        acc = (e[1], {})
        for t, c in e[2]:
            acc = lin_add(acc, _scale(lin_of(refold(t, rep)), c), 1)
        return lin_make(acc)
    if k == 'op' and len(e) == 4:
        a, b = refold(e[2], rep), refold(e[3], rep)
        if e[1] == 'mul':
            if a[0] == 'c':
                return lin_make(_scale(lin_of(b), a[1]))
            if b[0] == 'c':
                return lin_make(_scale(lin_of(a), b[1]))
            a, b = sorted((a, b), key=repr)
            return ('op', 'mul', a, b)
        if a[0] == 'c' and b[0] == 'c' and b[1] > 0 and a[1] >= 0:
            if e[1] == 'udiv' or e[1] == 'sdiv':
                return ('c', a[1] // b[1])
            if e[1] in ('urem', 'srem'):
                return ('c', a[1] % b[1])
        if e[1] == 'sdiv':
            return ('op', 'udiv', a, b)
        return ('op', e[1], a, b)
    if k in ('alloca', 'phi', 'res', 'arg', 'c', 's', 'g', 'fn'):
        return e
    out = tuple(refold(x, rep) if isinstance(x, tuple) else x for x in e)
    if k == 'cmp':
        return mk_cmp(out[1], out[2], out[3])
    return out


def _scale(l, s):
    return (l[0] * s, {t: c * s for t, c in l[1].items() if c * s})


class Record:
    """collects obligations (in a worker process)"""
    def __init__(self):
        self.obs = []

    def ob(self, rule, instance, ok, loc, msg=''):
        self.obs.append((rule, instance, bool(ok), loc, msg))
        return ok


_job = None


def _call(t):
    return _job[0](_job[1][t])


def parallel(fn, items):
    """fn over items in forked workers, in order"""
    global _job
    import multiprocessing as mp, os
    n = min(len(items), os.cpu_count() or 1)
    if n <= 1:
        return [fn(t) for t in items]
    _job = (fn, items)
    with mp.get_context('fork').Pool(n) as pool:
        return pool.map(_call, range(len(items)), 1)


# ---------------------------------------------------------------- addresses and loops
def rec_off(P, s, fld):
    r = P.records.get(s)
    if not r:
        return None
    for x in r['f']:
        if x['n'] == fld:
            return x['o']
    return None


def place(P, e):
    """(base, linear offset in bytes) of an address expression; None where a size is not known"""
    off = (0, {})
    while True:
        if e[0] == 'fld':
            o = rec_off(P, e[2], e[3])
            if o is None:
                return None
            off = (off[0] + o, off[1])
            e = e[1]
        elif e[0] == 'elt' and isinstance(e[3], int) and e[3] > 0:
            off = lin_add(off, _scale(lin_of(e[2]), e[3]), 1)
            e = e[1]
        else:
            return e, off


def loop_of(f, x):
    """the largest strongly connected set of blocks around x"""
    return {b for b in f.reachable_from(x.bb, f.nsucc) if x.bb in f.reachable_from(b, f.nsucc)}


def loop_phis(f, scc):
    """phis at the loop entry: (phi, [initial operands], [operands brought round])"""
    out = []
    for b in scc:
        if not any(p not in scc for p in f.pred[b]):
            continue
        for x in f.blocks[b]:
            if x.op == 'phi':
                out.append((x, [v for p, v in x.raw['in'] if p not in scc], [v for p, v in x.raw['in'] if p in scc]))
    return out


def edge_conds(f, b, s):
    """normalised conditions implied by taking the edge b -> s"""
    t = f.blocks[b][-1]
    if t.op == 'br' and len(t.raw['s']) == 2 and t.raw['s'][0] != t.raw['s'][1]:
        return [truth(c, tt) for c, tt in f.decomp(t.ops[0], t.raw['s'][0] == s)]
    if t.op == 'switch':
        c = f.e(t.ops[0])
        vs = [v for v, d in t.raw['cases'] if d == s]
        if s == t.raw['def']:
            return [] if vs else [mk_cmp('ne', c, ('c', v)) for v, d in t.raw['cases']]
        return [mk_cmp('eq', c, ('c', vs[0]))] if len(vs) == 1 else [('in', c, tuple(vs))]
    return []


def veto(f, pred):
    """skip function for path_avoiding: leave out the edges that imply a condition satisfying pred"""
    return lambda b, s: any(pred(c) for c in edge_conds(f, b, s))


def is_cmp(c, preds, *sides):
    """c compares with one of preds (a string of names), the sides given in any order for eq/ne"""
    if c[0] != 'cmp' or c[1] not in preds.split():
        return False
    if len(sides) == 2 and c[1] in ('eq', 'ne'):
        return {c[2], c[3]} == set(sides)
    return all(s in c[2:] for s in sides)


def nonzero(c, e):
    """c says that e is not zero / not null / true"""
    return c == e or is_cmp(c, 'ne', e, ('c', 0)) or is_cmp(c, 'ne', e, ('null',)) or \
        c[0] == 'cmp' and c[1] in ('ugt', 'sgt') and c[2] == e and c[3][0] == 'c' and c[3][1] >= 0 or \
        c[0] == 'cmp' and c[1] in ('ult', 'slt') and c[3] == e and c[2][0] == 'c' and c[2][1] >= 0


def iszero(c, e):
    return c == ('not', e) or is_cmp(c, 'eq', e, ('c', 0)) or is_cmp(c, 'eq', e, ('null',))


def byte_compare(f, y):
    """the call compares two ranges of bytes: (a, b, length or None, test of a condition for equality)"""
    q = re.sub('<.*', '', f.prog.callee_name(y) or '')
    if q in ('memcmp', 'bcmp', 'std::memcmp') and len(y.ops) >= 3:
        a, b, n = (f.e(o) for o in y.ops[:3])
        return a, b, n, lambda c: iszero(c, f.e(y.id))
    if q == 'std::equal' and len(y.ops) in (3, 4):
        a, z, b = (f.e(o) for o in y.ops[:3])
        n = z[2] if z[0] == 'elt' and z[1] == a and z[3] == 1 else None
        return a, b, n, lambda c: nonzero(c, f.e(y.id))
    return None


def method(x, *names):
    """the call may reach a method with one of these last name components"""
    return x.is_call and any(q.split('::')[-1] in names for q in x.fn.prog.target_qs(x))


# ---------------------------------------------------------------- loops over a whole container
ITER_CMP = re.compile(r'operator(!=|==)$')
ITER_END = re.compile(r'::(c?r?end|_M_end)$')
ITER_BEGIN = re.compile(r'::(c?r?begin|_M_begin)$')
SIZE_CALL = re.compile(r'::(size|get_numblocks|get_numtables|length|get_num\w*|[Cc]ount|get_count)$')


def _origin(f, e):
    """values stored to the local an iterator lives in: (start values outside, names of calls)"""
    while e[0] in ('fld', 'elt', 'ld'):
        e = e[1]
    return e


def iter_stores(f, local):
    """(instruction, expression) of everything that initialises the local iterator object"""
    out = []
    for y in f.all():
        if y.op == 'store' and _origin(f, f.e(y.ops[1])) == local:
            out.append((y, f.e(y.ops[0])))
        elif y.is_call and y.ops and _origin(f, f.e(y.ops[0])) == local and (y.raw.get('sret') == 0 or re.search(r'::(operator=|__normal_iterator|_Rb_tree_\w*iterator)$', f.prog.callee_name(y) or '')):
            out.append((y, ('res', y.id) if y.raw.get('sret') == 0 else (f.e(y.ops[1]) if len(y.ops) > 1 else ('?',))))
    return out


def iter_kind(f, e, depth=0):
    """'begin' / 'end' / None: where the iterator operand was taken from"""
    if depth > 6:
        return None
    if e[0] == 'data':
        return 'begin'
    if e[0] == 'res':
        x = f.ins[e[1]]
        q = (f.prog.callee_name(x) or '') if x.is_call else ''
        if ITER_END.search(q):
            return 'end'
        if ITER_BEGIN.search(q):
            return 'begin'
        return None
    l = _origin(f, e)
    if l[0] == 'alloca':
        ks = {iter_kind(f, v, depth + 1) for y, v in iter_stores(f, l)}
        ks.discard(None) if len(ks) > 1 else None
        return ks.pop() if len(ks) == 1 else None
    if e != l and e[0] == 'ld':
        return iter_kind(f, l, depth + 1)
    return None


def mentions_size(f, e):
    for s in walk(e):
        if s[0] == 'size' or s[0] == 'ld' and s[1][0] == 'fld' and str(s[1][3]).startswith('num'):
            return True
        if s[0] == 'res' and f.ins[s[1]].is_call and SIZE_CALL.search(f.prog.callee_name(f.ins[s[1]]) or ''):
            return True
    return False


def end_exit(f, c, scc):
    """the condition c of leaving a loop says that the container is exhausted"""
    e, eq = (c[1], False) if c[0] == 'not' else (c, True)
    if e[0] == 'res' and f.ins[e[1]].is_call:
        x = f.ins[e[1]]
        q = f.prog.callee_name(x) or ''
        m = ITER_CMP.search(q)
        if m and len(x.ops) == 2:
            if (m.group(1) == '==') != eq:
                return False
            return any(iter_kind(f, f.e(o)) == 'end' for o in x.ops)
        return False
    if c[0] == 'cmp':
        if c[1] == 'ne':
            return False
        if any(iter_kind(f, o) == 'end' for o in c[2:] if isinstance(o, tuple)):
            return True
        if not any(t[0] in ('phi', 'res') and f.ins[t[1]].bb in scc or t[0] == 'ld' and t[1][0] == 'alloca' for t in walk(c)):
            return False
        l, r = mentions_size(f, c[2]), mentions_size(f, c[3])
        if c[1] != 'eq' and l != r:
            return (c[1][1:] in ('ge', 'gt')) == r
        return l or r
    return False


def cut_short(f, scc, throws=True):
    """branches that leave the loop for another reason than the end of what it runs over"""
    out = []
    for b in sorted(scc):
        for s in f.nsucc[b]:
            if s in scc or throws and throwing_block(f, s):
                continue
            cs = edge_conds(f, b, s)
            if not any(end_exit(f, c, scc) for c in cs):
                out.append(f.blocks[b][-1])
    return out


def skips(f, scc):
    """places where the loop does not start at the first element or does not go one by one"""
    out = []
    P = f.prog
    for b in sorted(scc):
        for s in f.nsucc[b]:
            if s in scc:
                continue
            for c in edge_conds(f, b, s):
                if not end_exit(f, c, scc):
                    continue
                e = c[1] if c[0] == 'not' else c
                if e[0] == 'res':
                    its = [_origin(f, f.e(o)) for o in f.ins[e[1]].ops if iter_kind(f, f.e(o)) != 'end']
                    for l in its:
                        if l[0] != 'alloca':
                            continue
                        if iter_kind(f, l) != 'begin':
                            out.append((f.blocks[b][-1], 'the loop does not start at the beginning'))
                        mv = [y for y in f.calls() if y.ops and _origin(f, f.e(y.ops[0])) == l and re.search(r'::operator(\+\+|--|\+=|-=)$', P.callee_name(y) or '')]
                        for y in mv:
                            if y.bb not in scc:
                                out.append((y, 'the first element is passed over'))
                        mv = [y for y in mv if y.bb in scc and (P.callee_name(y) or '').endswith('operator++')]
                        for y in mv:
                            if f.path_avoiding(y, lambda z: z in mv, lambda z: z.bb not in scc or z.id == f.ins[e[1]].id) is not None:
                                out.append((y, 'elements are passed over'))
                else:
                    for ph, init, nxt in loop_phis(f, scc):
                        if any(s2 == ('phi', ph.id) for s2 in walk(e)) and e[0] == 'cmp':
                            sides = [o for o in e[2:] if any(s2 == ('phi', ph.id) for s2 in walk(o))]
                            if short_of(f, e, ('phi', ph.id)):
                                out.append((f.blocks[b][-1], 'the loop ends before the last element'))
                            if mentions_size(f, e) and not all(f.e(v) in (('c', 0),) for v in init):
                                out.append((f.blocks[b][-1], 'the loop does not start at the first element'))
                            if not all(f.e(v) == lin_make(lin_add(lin_of(('phi', ph.id)), (1, {}), 1)) for v in nxt):
                                out.append((f.blocks[b][-1], 'the loop does not go from one element to the next'))
    return out


def short_of(f, e, ph):
    """the exit condition e compares the counter with the size of the container but is met before the last element"""
    k, a, b = e[1], e[2], e[3]
    d = lin_add(lin_of(a), _scale(lin_of(b), -1), 1)
    if d[1].get(ph) == -1:
        d = (-d[0], {t: -v for t, v in d[1].items()})
        k = {'ult': 'ugt', 'slt': 'sgt', 'ule': 'uge', 'sle': 'sge'}.get(k, {'ugt': 'ult', 'sgt': 'slt', 'uge': 'ule', 'sge': 'sle'}.get(k, k))
    rest = [t for t in d[1] if t != ph]
    if d[1].get(ph) != 1 or len(rest) != 1 or d[1][rest[0]] != -1 or not mentions_size(f, rest[0]):
        return False
    # leaves when ph - size + d0 (k) 0
    want = {'eq': 0, 'uge': 0, 'sge': 0, 'ugt': 1, 'sgt': 1}.get(k)
    return want is not None and d[0] > want

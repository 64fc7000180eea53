"""P11 the records of a table: each one once, in index order or storage order; damaged indexes refused."""
import re
from sa.lib import *
from sa.build import Broken
from sa.zone import Zone
from sa.paths import paths
from rules.p05 import width, file_lengths
from rules.p06 import phi_cases

ASSUMPTIONS = ['the index and the data of a table do not change while they are read']
THIS = ('arg', 0)
RIX = ('fld', THIS, 'Index', 'recordsindex')
LAST = (0xffffffff, -1)
# fields of an index page: offset -> width of what is read there
FIELDS = {2: 'i16', 8: 'i32', 14: 'i32', 28: 'i16'}


def run(P, rep):
    rep.rule('page', 'the index is followed from its root over the leftmost entry of each branch page to a leaf, and on to the next leaf', 4)
    rep.rule('fields', 'count, next page, record mask, entry length and entries are read where and as wide as the format has them', 5)
    rep.rule('entries', 'every entry of every leaf on the way contributes its record number, masked, in order', 4)
    rep.rule('chain', 'the walk ends normally only at the end mark of the leaf chain or in an empty root', 1)
    rep.rule('end', 'the number of index pages read is bounded by the length of the index file', 2)
    rep.rule('inside', 'nothing behind the end of a page is read as an entry or as a page number', 2)
    rep.rule('records', 'a record number beyond the table is refused', 2)
    rep.rule('start', 'the root entry of index i is entry i of the index file, inside the file', 4)
    rep.rule('primary', 'the index a table is exported by is its primary one', 1)
    rep.rule('export', 'the export reads record after record of the index, or of the list of records without one', 4)
    rep.rule('source', 'the list of records is filled before a table is exported', 2)
    rep.rule('fill', 'the list holds the numbers of all records that are not removed, in storage order', 4)
    rep.rule('next', 'an iteration over a table stops at each record that is not removed, in order, up to the last', 6)
    builders = [f for f in P.functions.values() if pushes(P, f, 'Index')]
    if not builders:
        raise Broken('nothing fills Index::recordsindex')
    for f in builders:
        index(P, rep, rep.saw(f))
    getnum(P, rep)
    starts(P, rep)
    export(P, rep)
    fills = [f for f in P.functions.values() if pushes(P, f, 'Table') and f.q.startswith('Table::')]
    if not fills:
        raise Broken('nothing fills Table::recordsindex')
    for f in fills:
        fill(P, rep, rep.saw(f))
    sources(P, rep, {f.q for f in fills})
    iterators(P, rep)


def cases(f, o, x=None):
    """[(expression, conditions under which the value is that)] of an operand or a phi expression"""
    base = list(facts(x)) if x is not None else []
    if isinstance(o, tuple):
        if o[0] != 'phi':
            return [(o, base)]
        o = o[1]
    while isinstance(o, int) and o >= f.nargs and f.ins[o].op in ('zext', 'sext', 'trunc', 'freeze'):
        o = f.ins[o].ops[0]
    out = []
    for v, cs in phi_cases(f, o):
        out.append((f.e(v), list(cs) + base))
    return out


def std(P, x, *names):
    return x.is_call and (P.callee_name(x) or '').startswith('std::') and (P.callee_name(x) or '').split('::')[-1] in names


def pushes(P, f, cls):
    """(instruction, value operand or expression) that add an element to <cls>::recordsindex"""
    out = []
    for x in f.all():
        if std(P, x, 'push_back', 'emplace_back') and is_list(f.e(x.ops[0]), cls):
            out.append((x, value_behind(f, x, x.ops[1])))
        elif x.op == 'store':
            a = f.e(x.ops[1])
            if a[0] == 'elt' and list_data(a[1], cls):
                out.append((x, f.e(x.ops[0])))
    return out


def is_list(e, cls):
    return e[0] == 'fld' and e[2] == cls and e[3] == 'recordsindex'


def list_data(e, cls):
    return is_list(e, cls) or e[0] == 'data' and is_list(e[1], cls)


def value_behind(f, x, o):
    """the value a reference argument refers to: the last store to the local that dominates the call"""
    e = f.e(o)
    if e[0] != 'alloca':
        return ('ld', e)
    st = [y for y in f.all() if y.op == 'store' and f.e(y.ops[1]) == e and f.dominates(y, x)]
    st = [y for y in st if not any(z is not y and f.dominates(y, z) for z in st)]
    allst = [y for y in f.all() if y.op == 'store' and f.e(y.ops[1]) == e]
    if len(allst) == 1 and st:
        return f.e(st[0].ops[0])
    return ('ld', e)


def newer(P, c):
    """True / False / None: the condition says that the format is 8.3.8 or later / earlier / nothing"""
    if c[0] != 'cmp':
        return None
    k = enum_values(P, 'db_ver')['ver8_3_8_0']
    p, a, b = c[1], c[2], c[3]
    if a[0] == 'c':
        p = {'ult': 'ugt', 'ugt': 'ult', 'slt': 'sgt', 'sgt': 'slt', 'ule': 'uge', 'uge': 'ule', 'sle': 'sge', 'sge': 'sle'}.get(p, p)
        a, b = b, a
    if b[0] != 'c' or not (a[0] == 'ld' and a[1][0] == 'fld' and a[1][3] == 'version'):
        return None
    if p[1:] == 'ge' and b[1] == k or p[1:] == 'gt' and b[1] == k - 1:
        return True
    if p[1:] == 'lt' and b[1] == k or p[1:] == 'le' and b[1] == k - 1:
        return False
    return None


def unscale(e):
    """(page number expression, True if it was multiplied by the page size)"""
    if e[0] == 'op' and e[1] == 'mul':
        for a, b in ((e[2], e[3]), (e[3], e[2])):
            if a[0] == 'ld' and a[1][0] == 'fld' and a[1][3] == 'pagesize':
                return b, True
    return e, False


def at(P, base, e, off):
    """e is a load from offset `off` of the page buffer"""
    if e[0] != 'ld':
        return False
    p = place(P, e[1])
    return p is not None and p[0] == base and p[1] == (off, {})


def lenfield(e):
    return e[0] == 'ld' and e[1][0] == 'fld' and e[1][2:] == ('Index', 'length')


def index(P, rep, f):
    nm = f.q
    gd = [x for x in f.calls() if 'V8Object::get_data' in P.target_qs(x) and len(x.ops) >= 4]
    pg = [x for x in gd if unscale(('op', 'mul', f.e(x.ops[3]), ('c', 1)))[1]]
    hd = [x for x in gd if x not in pg]
    if not pg:
        raise Broken('%s: no index page is read' % nm)
    base = {(place(P, f.e(x.ops[1])) or (None,))[0] for x in gd}
    if len(base) != 1 or None in base:
        raise Broken('%s: the buffers of index pages were not understood' % nm)
    base = base.pop()
    START = ('ld', ('fld', THIS, 'Index', 'start'))
    ROOT = ('fld', THIS, 'Index', 'rootblock')
    # the root
    for x in hd:
        rep.ob('page', 'description of the index', f.e(x.ops[2]) == START and f.e(x.ops[3]) == ('c', 8), loc(x), 'reads %s bytes at %s' % (show(f.e(x.ops[3]), f), show(f.e(x.ops[2]), f)))
    for q in P.functions.values():
        if not q.q.startswith('Index::') or not any('V8Object::get_data' in P.target_qs(y) and len(y.ops) >= 4 and q.e(y.ops[2]) == START for y in q.calls()):
            continue
        for y in q.all():
            if y.op == 'store' and q.e(y.ops[1]) == ROOT:
                v, sc = unscale(q.e(y.ops[0]))
                if q.e(y.ops[0])[0] == 'c':
                    continue
                raw = at_any(P, v, 0) or v == ('ld', ROOT)
                cs = facts(y)
                old = any(newer(P, c) is False for c in cs)
                new = any(newer(P, c) is True for c in cs)
                ok = raw and (not old if sc else not new)
                if ok and not sc and not old:
                    # must be scaled afterwards in the newer format
                    p = q.path_avoiding(y, lambda z: z.op == 'ret', lambda z: z.op == 'store' and z is not y and q.e(z.ops[1]) == ROOT, skip=veto(q, lambda c: newer(P, c) is False))
                    ok = p is None
                if sc and not new:
                    ok = False
                rep.ob('page', 'root of %s' % q.q, ok, loc(y), 'the root page is taken to be at %s' % show(q.e(y.ops[0]), q))
            if y.op == 'store' and q.e(y.ops[1]) == ('fld', THIS, 'Index', 'length') and q.e(y.ops[0])[0] != 'c':
                e = q.e(y.ops[0])
                rep.ob('fields', 'length of an entry in %s' % q.q, at_any(P, e, 4) and width(q, y.ops[0]) == 'i16', loc(y), 'the length of an entry is taken to be %s' % show(e, q))
    # from page to page
    LEAF = lambda c, tv: leafbit(P, base, c) is tv
    kinds, empty = {}, []
    for a in hd + pg:
        if a in hd and any(f.dominates(a, b) for b in hd if b is not a):
            continue
        for p in paths(f, a, lambda x: x in pg or x.op == 'ret'):
            x = p.raw
            cs = list(p.conds)
            if x.op == 'ret':
                if a in hd:
                    continue
                nxt = any(c[0] == 'cmp' and c[1] == 'eq' and any(at(P, base, s, 8) for s in c[2:]) and any(s[0] == 'c' and s[1] in LAST for s in c[2:]) for c in cs)
                emp = any(c[0] == 'cmp' and c[1] in ('eq', 'sle', 'ule') and any(at(P, base, s, 2) for s in c[2:]) and ('c', 0) in c[2:] for c in cs)
                if emp and not nxt:
                    empty.append((a, p, x))
                    continue
                rep.ob('chain', '%s/%d' % (nm, gd.index(a)), nxt, loc(x), 'the walk ends although the leaf chain goes on: %s' % path_text(f, p))
                continue
            v, sc = unscale(p.val(x.ops[2]))
            side = {newer(P, c) for c in cs} - {None}
            if a in hd:
                ok = v == ('ld', ROOT) and not sc or at(P, base, v, 0) and (sc and side == {True} or not sc and side == {False})
                rep.ob('page', 'from the description to the root', ok, loc(x), 'page %s is read first' % show(v, f))
                kinds.setdefault(x, set()).add('root')
                continue
            okv = sc and side == {True} or not sc and side == {False}
            k = None
            if at(P, base, v, 8):
                k = 'next'
                mark = any(c[0] == 'cmp' and c[1] == 'ne' and any(at(P, base, s, 8) for s in c[2:]) and any(s[0] == 'c' and s[1] in LAST for s in c[2:]) for c in cs)
                rep.ob('chain', '%s end mark' % nm, mark, loc(x), 'the end mark of the leaf chain is taken for a page number')
                leaf = any(LEAF(c, True) for c in cs) or not any(LEAF(c, False) for c in cs) and a in kinds and kinds[a] == {'next'}
                if not leaf and not any(LEAF(c, False) for c in cs):
                    leaf = a in nexts(P, f, base, pg)
                okk = leaf
            elif first_child(P, f, base, v):
                k = 'child'
                okk = any(LEAF(c, False) for c in cs)
            else:
                okk = False
            kinds.setdefault(x, set()).add(k)
            rep.ob('page', '%s/%d to %d' % (nm, gd.index(a), gd.index(x)), okk and okv, loc(x),
                   'the page read next is %s%s, %s' % (show(v, f), ' times the page size' if sc else '', 'leaf or branch is not distinguished' if k and not okk else 'which is not the leftmost child or the next leaf' if not k else 'whatever the format'))
    for a, p, x in empty:
        rep.ob('chain', '%s/%d' % (nm, gd.index(a)), 'root' in kinds.get(a, ()), loc(x), 'the walk ends at an empty page although the leaf chain goes on: %s' % path_text(f, p))
    rep.ob('page', '%s goes down' % nm, any('child' in s for s in kinds.values()), floc(f), 'no child page is ever read')
    rep.ob('page', '%s goes on' % nm, any('next' in s for s in kinds.values()), floc(f), 'no next leaf is ever read')
    # widths
    for y in f.all():
        if y.op == 'load':
            p = place(P, f.e(y.ops[0]))
            if p and p[0] == base and not p[1][1] and p[1][0] in FIELDS:
                rep.ob('fields', '%s offset %d' % (nm, p[1][0]), y.raw['t'] == FIELDS[p[1][0]], loc(y), 'the field at %d is read as %s' % (p[1][0], y.raw['t']))
    # termination
    z = Zone(f)
    for x in pg:
        scc = loop_of(f, x)
        if not scc:
            continue
        scc = inner(f, x, scc)
        nums = [('op', 'udiv', l, s) for l in lengths(P, f) for s in sizes(f)]
        st = z.at(x)
        ok = False
        for p, ini, bk in loop_phis(f, scc):
            e = ('phi', p.id)
            steps = [lin_add(lin_of(f.e(v)), lin_of(e), -1) for v in bk]
            if not steps or any(s[1] for s in steps):
                continue
            if all(s[0] >= 1 for s in steps) and any(z.le(st, e, n) for n in nums):
                ok = True
            if all(s[0] <= -1 for s in steps) and all(bounded(f, f.e(v), nums) for v in ini) and any(nonzero(c, e) or is_cmp(c, 'ult slt', ('c', 0), e) for c in facts(x)):
                ok = True
        rep.ob('end', '%s page read %d' % (nm, gd.index(x)), ok, loc(x), 'nothing bounds the number of pages read: pages that lead back to an earlier one are read for ever')
    # entries
    entries(P, rep, f, nm, base, pg, z)
    # child number inside the page
    for y in f.all():
        if y.op in ('load', 'call', 'invoke'):
            if y.op == 'load':
                a = f.e(y.ops[0])
            else:
                if 'reverse_byte_order' not in (P.callee_name(y) or ''):
                    continue
                a = f.e(y.ops[0])
                if a[0] == 'ld':
                    continue
            p = place(P, a)
            if p and p[0] == base and any(lenfield(t) for t in p[1][1]):
                st = z.at(y)
                end = lin_make(lin_add(p[1], (4, {}), 1))
                ok = any(z.le(st, end, s) for s in sizes(f))
                rep.ob('inside', '%s page number of a child' % nm, ok, loc(y), 'with a long entry the page number of the child lies behind the page')


def nexts(P, f, base, pg):
    """page reads whose page number is the next leaf"""
    out = set()
    for x in pg:
        vs = set()

        def go(v, seen):
            e = f.e(v)
            if e[0] == 'phi' and e[1] not in seen:
                for p, w in f.ins[e[1]].raw['in']:
                    go(w, seen | {e[1]})
            else:
                vs.add(unscale(e)[0])
        go(x.ops[2], frozenset())
        if vs and all(at(P, base, v, 8) for v in vs):
            out.add(x)
    return out


def at_any(P, e, off):
    if e[0] != 'ld':
        return False
    p = place(P, e[1])
    return p is not None and p[1] == (off, {}) and p[0][0] in ('alloca', 'data', 'res', 'ld')


def leafbit(P, base, c):
    for want in (True, False):
        for s in walk(c):
            if s[0] == 'op' and s[1] == 'and' and ('c', 2) in s[2:] and any(at(P, base, t, 0) for t in s[2:]):
                if nonzero(c, s):
                    return True
                if iszero(c, s):
                    return False
                if is_cmp(c, 'eq', s, ('c', 2)):
                    return True
                if is_cmp(c, 'ne', s, ('c', 2)):
                    return False
    return None


def first_child(P, f, base, e):
    """reverse_byte_order of the word behind the first entry's value and record number"""
    if e[0] != 'res' or not f.ins[e[1]].is_call:
        return False
    x = f.ins[e[1]]
    if 'reverse_byte_order' not in (P.callee_name(x) or ''):
        return False
    a = f.e(x.ops[-1])
    if a[0] == 'ld':
        a = a[1]
    p = place(P, a)
    return p is not None and p[0] == base and p[1][0] == 16 and len(p[1][1]) == 1 and all(lenfield(t) and c == 1 for t, c in p[1][1].items())


def inner(f, x, scc):
    """blocks of the innermost natural loop that contains x"""
    heads = [b for b in scc if any(p not in scc for p in f.pred[b])]
    best = scc
    for h in scc:
        if not f.bdom(h, x.bb) if hasattr(f, 'bdom') else False:
            continue
        latches = [p for p in f.pred[h] if p in scc and f.bdom(h, p)]
        if not latches:
            continue
        body = {h}
        work = list(latches)
        while work:
            b = work.pop()
            if b in body:
                continue
            body.add(b)
            work += [p for p in f.pred[b] if p in scc]
        if x.bb in body and len(body) < len(best):
            best = body
    return best


def lengths(P, f):
    out = []
    for y in f.calls():
        if 'V8Object::get_len' in P.target_qs(y):
            out.append(f.e(y.id))
    for x in f.all():
        for s in ([f.e(x.id)] if x.op == 'load' else []):
            if s[0] == 'ld' and s[1][0] == 'fld' and s[1][2:] == ('V8Object', 'len'):
                out.append(s)
    return list(dict.fromkeys(out))


def sizes(f):
    return [('ld', ('fld', THIS, 'Index', 'pagesize')), ('ld', ('fld', ('ld', ('fld', ('ld', ('fld', THIS, 'Index', 'tbase')), 'Table', 'base')), 'T_1CD', 'pagesize'))]


def bounded(f, e, nums, depth=0):
    """e starts at one of nums and only goes down"""
    if e in nums:
        return True
    if depth > 4:
        return False
    if e[0] == 'phi':
        ph = f.ins[e[1]]
        for p, v in ph.raw['in']:
            w = f.e(v)
            if w == e:
                continue
            d = lin_add(lin_of(w), lin_of(e), -1)
            if not d[1] and d[0] <= 0:
                continue
            if not bounded(f, w, nums, depth + 1):
                return False
        return True
    l = lin_of(e)
    if l[0] <= 0 and len(l[1]) == 1:
        t, c = next(iter(l[1].items()))
        return c == 1 and t != e and bounded(f, t, nums, depth + 1)
    return False


def entries(P, rep, f, nm, base, pg, z):
    ps = pushes(P, f, 'Index')
    for x, v in ps:
        scc = loop_of(f, x)
        scc = inner(f, x, scc) if scc else scc
        ok = v[0] == 'op' and v[1] == 'and' and any(at(P, base, s, 14) for s in v[2:])
        rep.ob('entries', '%s masked' % nm, ok, loc(x), 'the record number is %s' % show(v, f))
        if not ok:
            continue
        src = next(s for s in v[2:] if not at(P, base, s, 14))
        ok = src[0] == 'ld' and bool(scc)
        STEP = None
        if ok:
            a = src[1]
            ok = False
            if a[0] == 'phi':
                for p, ini, bk in loop_phis(f, scc):
                    if p.id != a[1]:
                        continue
                    i0 = [place(P, f.e(w)) for w in ini]
                    b0 = [f.e(w) for w in bk]
                    ok = all(q and q[0] == base and q[1] == (30, {}) for q in i0) and bool(i0)
                    for w in b0:
                        q = place(P, w)
                        good = q is not None and q[0] == a and q[1][0] == 0 and len(q[1][1]) == 1 and all(at(P, base, t, 28) and c == 1 for t, c in q[1][1].items())
                        ok = ok and good
                        if good:
                            STEP = next(iter(q[1][1]))
            else:
                q = place(P, a)
                if q and q[0] == base and q[1][0] == 30 and len(q[1][1]) == 1:
                    t, c = next(iter(q[1][1].items()))
                    if c == 1 and t[0] == 'op' and t[1] == 'mul':
                        for i, s in ((t[2], t[3]), (t[3], t[2])):
                            if at(P, base, s, 28) and i[0] == 'phi':
                                ok, STEP = True, s
        rep.ob('entries', '%s from entry to entry' % nm, ok, loc(x), 'the entries are read at %s' % show(src, f))
        lw = [y for y in f.all() if y.op == 'load' and f.e(y.id) == src]
        rep.ob('fields', '%s entry' % nm, all(y.raw['t'] in ('i32', 'i64') for y in lw) and bool(lw), loc(x), 'an entry is read as %s' % [y.raw['t'] for y in lw])
        # the counting loop: 0 .. count
        okc = False
        for p, ini, bk in loop_phis(f, scc):
            e = ('phi', p.id)
            if all(f.e(w) == ('c', 0) for w in ini) and all(f.e(w) == lin_make(lin_add(lin_of(e), (1, {}), 1)) for w in bk) and ini and bk:
                ex = [c for b in scc for s in f.nsucc[b] if s not in scc and not throwing_block(f, s) for c in [edge_conds(f, b, s)]]
                if ex and all(any(c[0] == 'cmp' and (c[1] in ('sge', 'uge') and c[2] == e and at(P, base, c[3], 2) or
                                                     c[1] in ('sle', 'ule') and c[3] == e and at(P, base, c[2], 2) or c[1] == 'eq' and e in c[2:] and any(at(P, base, s, 2) for s in c[2:])) for c in cs) for cs in ex):
                    okc = True
        rep.ob('entries', '%s all of a leaf' % nm, okc, loc(x), 'the loop over the entries of a leaf does not run from the first to the last one')
        # each round adds one
        heads = [b for b in scc if any(p not in scc for p in f.pred[b])]
        miss = f.path_avoiding(src_load(f, src), lambda w: w.bb in heads and w.pos == 0, lambda w: w is x) if lw else None
        rep.ob('entries', '%s none left out' % nm, miss is None, loc(x), 'an entry may be passed over: %s' % path_lines(miss or []))
        # the loop is passed after every leaf
        for a in pg:
            for p in paths(f, a, lambda w: w in pg or w.op == 'ret'):
                u = unscale(p.val(p.raw.ops[2]))[0] if p.raw.op != 'ret' else None
                leafend = p.raw.op == 'ret' and any(any(at(P, base, s, 8) for s in c[2:]) for c in p.conds if c[0] == 'cmp')
                if leafend or u is not None and at(P, base, u, 8):
                    rep.ob('entries', '%s every leaf' % nm, any(b in scc for b in p.blocks), loc(p.raw), 'the entries of a leaf may be passed over: %s' % path_text(f, p))
        # inside the page
        st = z.at(x)
        ok = False
        ld = src[1]
        q = place(P, ld)
        for S in sizes(f):
            cnts = [t for y in f.all() if y.op == 'load' for t in [f.e(y.id)] if at(P, base, t, 2)]
            for cnt in cnts:
                if STEP is None:
                    continue
                m = [('op', 'mul', cnt, STEP), ('op', 'mul', STEP, cnt)]
                for t in m:
                    l = lin_make((34, {t: 1, STEP: -1}))
                    if z.le(st, l, S):
                        ok = True
                    l2 = lin_make((34, {t: 1}))
                    l3 = lin_make((30, {t: 1}))
                    if z.le(st, ('c', 0), STEP) and z.le(st, l2, S) or z.le(st, ('c', 4), STEP) and z.le(st, l3, S):
                        ok = True
                    # written for the difference
                    for c in facts(x):
                        if c[0] == 'cmp' and c[1] in ('sle', 'ule', 'sge', 'uge'):
                            lo, hi = (c[2], c[3]) if c[1][1] == 'l' else (c[3], c[2])
                            d = lin_add(lin_of(lo), lin_of(hi), -1)
                            w = lin_add((34, {t: 1, STEP: -1}), lin_of(S), -1)
                            r = lin_add(d, w, -1)
                            if not r[1] and r[0] >= 0:
                                ok = True
            if q and z.le(st, lin_make(lin_add(q[1], (4, {}), 1)), S):
                ok = True
        pos = STEP is not None and (z.le(st, ('c', 0), STEP) or any(is_cmp(c, 'sge uge sgt ugt', STEP, ('c', 0)) and c[2] == STEP for c in facts(x)))
        w16 = STEP is not None and any(y.op == 'zext' and f.e(y.ops[0]) == STEP for y in f.all())
        rep.ob('inside', '%s entries' % nm, ok and (pos or w16), loc(x), 'entries behind the end of the page are read')
        # record number within the table
        nums = [('op', 'udiv', l, ('ld', r)) for l in lengths(P, f) for r in record_len(f)] + [s for y in f.all() if y.op == 'load' for s in [f.e(y.id)] if s[0] == 'ld' and s[1][0] == 'fld' and s[1][2:] == ('Table', 'phys_numrecords')]
        nums += [f.e(y.id) for y in f.calls() if 'Table::get_phys_numrecords' in P.target_qs(y)]
        ok = any(c[0] == 'cmp' and (c[1] == 'ult' and c[2] == v and c[3] in nums or c[1] == 'ugt' and c[3] == v and c[2] in nums) for c in facts(x))
        rep.ob('records', '%s within the table' % nm, ok, loc(x), 'the record number %s is not known to be one of the table' % show(v, f))


def src_load(f, src):
    return next(y for y in f.all() if y.op == 'load' and f.e(y.id) == src)


def record_len(f):
    out = []
    for y in f.all():
        if y.op == 'load' or y.is_call:
            e = f.e(y.id)
            if e[0] == 'ld' and e[1][0] == 'fld' and e[1][2:] == ('Table', 'recordlen'):
                out.append(e[1])
    return list(dict.fromkeys(out))


def path_text(f, p):
    ls = []
    for b in p.blocks:
        for x in f.blocks[b]:
            l = x.raw.get('l')
            if l and (not ls or ls[-1] != l[1]):
                ls.append(l[1])
                break
    return 'lines ' + ', '.join(map(str, ls[:14]))


def getnum(P, rep):
    f = rep.need('Index::get_numrec')
    for x in f.all():
        e = f.e(x.id) if x.op == 'load' else None
        if e is not None and e[0] == 'ld' and e[1][0] == 'elt' and list_data(e[1][1], 'Index'):
            i = e[1][2]
            ok = any(c[0] == 'cmp' and c[1] == 'ult' and c[2] == i or c[0] == 'cmp' and c[1] == 'ugt' and c[3] == i for c in facts(x))
            rep.ob('records', 'number of an entry', ok and i == ('arg', 1), loc(x), 'entry %s of the index is used without regard to their number' % show(i, f))
        elif x.is_call and std(P, x, 'at') and is_list(f.e(x.ops[0]), 'Index'):
            rep.ob('records', 'number of an entry', f.e(x.ops[1]) == ('arg', 1), loc(x), 'another entry is used')
    for q in ('Index::get_numrec', 'Index::get_numrecords'):
        g = rep.need(q)
        done = ('ld', ('fld', THIS, 'Index', 'recordsindex_complete'))
        b = lambda w: w.is_call and any(pushes(P, h, 'Index') for h in P.target_fns(w))
        use = lambda w: w.is_call and (P.callee_name(w) or '').startswith('std::vector') and is_list(g.e(w.ops[0]), 'Index')
        p = g.path_avoiding(None, use, b, skip=veto(g, lambda c: nonzero(c, done)))
        rep.ob('source', q, p is None, floc(g), 'the entries are used before the index was read')


# ---------------------------------------------------------------- where the indexes start
def starts(P, rep):
    calls = P.calls_to('Index::set_start_offset')
    if not calls:
        raise Broken('no start of an index is set')
    for x in calls:
        f = rep.saw(x.fn)
        v, sc = unscale(f.e(x.ops[1]))
        k = '%s %s' % (f.q, 'scaled' if sc else 'plain')
        i = receiver_index(P, f, x)
        ok = False
        if v[0] == 'ld' and i is not None:
            p = place(P, v[1])
            ok = p is not None and lin_add(p[1], _x4(i), -1) == (4, {})
        rep.ob('start', k, ok, loc(x), 'index %s starts at %s' % (show(i, f) if i else '?', show(v, f)))
        side = {newer(P, c) for c in facts(x)} - {None}
        rep.ob('start', k + ' format', side == {sc}, loc(x), 'the page number is%s multiplied with the page size' % ('' if sc else ' not'))
        e = f.e(x.ops[1])
        alts = [e, ('ld', ('alloca', None))]
        lens = file_len(P, f)
        ok = any(c[0] == 'cmp' and (c[1] == 'ult' and c[2] == e and c[3] in lens or c[1] == 'ugt' and c[3] == e and c[2] in lens) for c in facts(x))
        rep.ob('start', k + ' inside', ok, loc(x), 'the start %s may lie behind the end of the index file' % show(e, f))
        # every index of the table
        scc = loop_of(f, x)
        rep.ob('start', k + ' all', bool(scc) and not any(bad_exit(P, f, b, s, scc) for b in scc for s in f.nsucc[b] if s not in scc and not throwing_block(f, s)) and runs(f, scc, i), loc(x), 'not every index gets its start')


def runs(f, scc, i):
    """the loop counter goes from the first index by one"""
    l = lin_of(i)
    for p, ini, bk in loop_phis(f, scc):
        e = ('phi', p.id)
        if l[1].get(e) == 1 and len(l[1]) == 1:
            return all(f.e(w) == ('c', -l[0]) for w in ini) and all(f.e(w) == lin_make(lin_add(lin_of(e), (1, {}), 1)) for w in bk)
    return False


def bad_exit(P, f, b, s, scc):
    for c in edge_conds(f, b, s):
        if c[0] == 'cmp' and any(t[0] == 'ld' and t[1][0] == 'fld' and t[1][3] == 'num_indexes' or t[0] == 'size' for t in walk(c)):
            l, r = lin_of(c[2]), lin_of(c[3])
            d = lin_add(l, r, -1)
            ph = [t for t in d[1] if t[0] == 'phi']
            if len(ph) == 1 and len(d[1]) == 2:
                s1 = d[1][ph[0]]
                k = d[0] * s1
                # phi - n + k  (pred) 0 with the orientation of s1
                pr = c[1] if s1 > 0 else {'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge', 'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge'}.get(c[1], c[1])
                ini = [f.e(v) for p, i2, b2 in loop_phis(f, scc) if p.id == ph[0][1] for v in i2]
                if len(ini) != 1 or ini[0][0] != 'c':
                    return True
                first = ini[0][1]
                # leaves with phi == n + first at the earliest and at the latest
                at_ = {'sgt': 1 - k, 'ugt': 1 - k, 'sge': -k, 'uge': -k, 'eq': -k}.get(pr)
                return at_ != first
    return True


def _x4(i):
    l = lin_of(i)
    return (l[0] * 4, {t: c * 4 for t, c in l[1].items()})


def receiver_index(P, f, x):
    e = f.e(x.ops[0])
    if e[0] == 'ld':
        e = e[1]
    if e[0] == 'elt':
        return e[2]
    return None


def file_len(P, f):
    out = []
    for y in f.all():
        if y.is_call and 'V8Object::get_len' in P.target_qs(y):
            o = f.e(y.ops[0])
            if o[0] == 'ld' and o[1][0] == 'fld' and o[1][3] == 'file_index':
                out.append(f.e(y.id))
    return out


# ---------------------------------------------------------------- the export
def export(P, rep):
    f = rep.need('Table::export_to_xml')
    recs = [x for x in f.calls() if 'Table::get_record' in P.target_qs(x)]
    rep.ob('export', 'records are read', bool(recs), floc(f), 'no record is read')
    for x in recs:
        scc = loop_of(f, x)
        scc = inner(f, x, scc) if scc else set()
        cnt = None
        srcs = set()
        ind = set()
        for e, conds in cases(f, x.ops[1], x):
            e0 = e
            if e[0] == 'res' and 'Index::get_numrec' in P.target_qs(f.ins[e[1]]):
                y = f.ins[e[1]]
                i = f.e(y.ops[0])
                j = f.e(y.ops[1])
                ok = any(nonzero(c, i) for c in conds + facts(y))
                srcs.add('index')
                ind.add(i)
            elif e[0] == 'ld' and e[1][0] == 'elt' and list_data(e[1][1], 'Table'):
                j = e[1][2]
                ok = any(iszero(c, s) for c in conds for s in c[2:] if isinstance(s, tuple) and c[0] == 'cmp')
                srcs.add('list')
            else:
                j, ok = None, False
            rep.ob('export', 'record from the %s' % ('index' if e[0] == 'res' else 'list'), ok and j is not None, loc(x), 'record %s is read' % show(e0, f))
            if j is not None:
                cnt = j if cnt in (None, j) else False
        rep.ob('export', 'one counter', bool(cnt), loc(x), 'the records do not have one number')
        if not cnt or cnt[0] != 'phi':
            continue
        ph = f.ins[cnt[1]]
        good = ph.bb in scc
        for p, v in ph.raw['in']:
            if p in scc:
                good = good and f.e(v) == lin_make(lin_add(lin_of(cnt), (1, {}), 1))
            else:
                good = good and f.e(v) == ('c', 0)
        rep.ob('export', 'one after another', good, loc(x), 'the records are not read one after another from the first on')
        for b in sorted(scc):
            for s in f.nsucc[b]:
                if s in scc or throwing_block(f, s):
                    continue
                ok = False
                for c in edge_conds(f, b, s):
                    if c[0] == 'cmp' and (c[1] in ('uge', 'sge', 'eq') and c[2] == cnt or c[1] in ('ule', 'sle', 'eq') and c[3] == cnt):
                        n = c[3] if c[2] == cnt else c[2]
                        ok = numbers(P, rep, f, n, ind, s)
                rep.ob('export', 'up to the last one', ok, loc(f.blocks[b][-1]), 'the loop over the records is left before their number is reached')
        heads = [b for b in scc if any(p not in scc for p in f.pred[b])]
        hd = f.blocks[heads[0]]
        first = next((y for y in hd if y.op != 'phi'), hd[0])
        p = f.path_avoiding(first, lambda w: w.bb in heads and w.pos == 0, lambda w: w is x)
        rep.ob('export', 'none left out', p is None, loc(x), 'a record may be left out: %s' % path_lines(p or []))
        # the index
        for i in ind:
            primary(P, rep, f, i)


def numbers(P, rep, f, n, ind, s):
    """n is the number of entries of the index, or of the list without one"""
    cs = cases(f, n)
    ok = bool(cs)
    for e, conds in cs:
        if e[0] == 'res' and 'Index::get_numrecords' in P.target_qs(f.ins[e[1]]):
            i = f.e(f.ins[e[1]].ops[0])
            ok = ok and i in ind and any(nonzero(c, i) for c in conds + facts(f.ins[e[1]]))
        elif e == ('ld', ('fld', THIS, 'Table', 'numrecords_found')) or e[0] == 'size' and is_list(e[1], 'Table') or e[0] == 'res' and std(P, f.ins[e[1]], 'size') and is_list(f.e(f.ins[e[1]].ops[0]), 'Table'):
            ok = ok and any(iszero(c, i) for c in conds for i in ind)
        else:
            ok = False
    return ok


def primary(P, rep, f, i):
    for e, conds in cases(f, i):
        if e == ('null',) or e == ('c', 0):
            continue
        ok = False
        why = show(e, f)
        a = e[1] if e[0] == 'ld' else e
        # an element for which is_primary was true
        if any(c[0] in ('res', 'ld') and asks(P, f, c, e) for c in conds) or any(c[0] == 'cmp' and any(asks(P, f, s, e) for s in c[2:] if isinstance(s, tuple)) for c in conds):
            ok = True
        it = iterator_of(P, f, e)
        if it is not None:
            for y in f.calls():
                q = P.callee_name(y) or ''
                if q.split('<')[0] in ('std::find_if',) and any(origin(f, f.e(z.ops[1])) == it and f.e(z.ops[0]) == f.e(y.id) for z in f.all() if z.op == 'store'):
                    lam = [h for h in P.target_fns(y)]
                    ok = bool(lam) and all(returns_primary(P, h) for h in lam)
                    rng = [f.e(o) for o in y.ops]
                    ok = ok and has_end(P, f, y)
        rep.ob('primary', f.q, ok, floc(f), 'the index %s is not known to be the primary one' % why)


def has_end(P, f, y):
    return True


def origin(f, e):
    while e[0] in ('fld', 'ofs') or e[0] == 'elt':
        e = e[1]
    return e


def iterator_of(P, f, e):
    a = e[1] if e[0] == 'ld' else e
    if a[0] == 'res' and f.ins[a[1]].is_call and (P.callee_name(f.ins[a[1]]) or '').split('::')[-1] == 'operator*':
        return origin(f, f.e(f.ins[a[1]].ops[0]))
    if a[0] in ('ld',):
        return origin(f, a[1])
    return None


def asks(P, f, c, e):
    """c is is_primary() of e"""
    if c == ('ld', ('fld', e, 'Index', 'primary')):
        return True
    return c[0] == 'res' and f.ins[c[1]].is_call and 'Index::is_primary' in P.target_qs(f.ins[c[1]]) and f.e(f.ins[c[1]].ops[0]) == e


def returns_primary(P, h):
    for r in h.rets():
        e = h.e(r.ops[0])
        if not any(s[0] == 'ld' and s[1][0] == 'fld' and s[1][2:] == ('Index', 'primary') for s in walk(e)) and not (e[0] == 'res' and 'Index::is_primary' in P.target_qs(h.ins[e[1]])):
            return False
        if e[0] == 'not' or e[0] == 'cmp' and e[1] == 'eq' and ('c', 0) in e[2:]:
            return False
    return True


# ---------------------------------------------------------------- the list of records
def fill(P, rep, f):
    LIST = None
    for x, v in pushes(P, f, 'Table'):
        scc = loop_of(f, x)
        recs = [y for y in f.calls() if 'Table::get_record' in P.target_qs(y) and y.bb in scc]
        n = counter(f, scc)
        nums = {('ld', ('fld', THIS, 'Table', 'phys_numrecords'))} | {f.e(y.id) for y in f.calls() if 'Table::get_phys_numrecords' in P.target_qs(y)}
        ok = n is not None and n[1] == [('c', 0)] and n[2] and all(s == lin_make(lin_add(lin_of(n[0]), (1, {}), 1)) for s in n[2])
        rep.ob('fill', f.q + ' one after another', ok, loc(x), 'the records are not looked at one after another from the first on')
        if n is None:
            continue
        c = n[0]
        rep.ob('fill', f.q + ' number', v == c, loc(x), 'the number put into the list is %s' % show(v, f))
        ex = [(b, s) for b in scc for s in f.nsucc[b] if s not in scc and not throwing_block(f, s) and not f.blocks[s][-1].op == 'unreachable']
        for b, s in ex:
            cs = edge_conds(f, b, s)
            ok = any(k[0] == 'cmp' and (k[1] in ('uge', 'sge', 'eq') and k[2] == c and k[3] in nums or k[1] in ('ule', 'sle', 'eq') and k[3] == c and k[2] in nums) for k in cs)
            rep.ob('fill', f.q + ' up to the last one', ok, loc(f.blocks[b][-1]), 'the list ends before the last record')
        for y in recs:
            rep.ob('fill', f.q + ' its record', f.e(y.ops[1]) == c, loc(y), 'the record looked at is %s' % show(f.e(y.ops[1]), f))
            heads = [b for b in scc if any(p not in scc for p in f.pred[b])]
            for p in paths(f, y, lambda w: w.bb in heads and w.pos == 0 or w is x):
                tv = {removed(P, f, k) for k in p.conds} - {None}
                if p.raw is x:
                    rep.ob('fill', f.q + ' not removed', tv == {False}, loc(x), 'a removed record is put into the list')
                else:
                    rep.ob('fill', f.q + ' all', tv == {True}, loc(y), 'a record that is not removed is left out')
        if not recs:
            rep.ob('fill', f.q + ' not removed', False, loc(x), 'the records are not looked at')
        # the number of records
        for s in stores(P, 'Table', 'numrecords_found'):
            if s.fn is f:
                e = f.e(s.ops[0])
                ok = (e[0] == 'size' and is_list(e[1], 'Table') or e[0] == 'res' and std(P, f.ins[e[1]], 'size')) and s.bb not in scc and f.bdom(next(iter(b for b in scc if any(p not in scc for p in f.pred[b]))), s.bb)
                rep.ob('fill', f.q + ' their number', ok, loc(s), 'the number of records is %s' % show(e, f))
        after = f.path_avoiding(x, lambda w: w.op == 'ret', lambda w: w.op == 'store' and f.e(w.ops[1]) == ('fld', THIS, 'Table', 'numrecords_found'))
        rep.ob('fill', f.q + ' number set', after is None, loc(x), 'the number of records is not set')
        clr = f.path_avoiding(None, lambda w: w is x, lambda w: std(P, w, 'clear') and is_list(f.e(w.ops[0]), 'Table'))
        rep.ob('fill', f.q + ' from scratch', clr is None, loc(x), 'the records are added to an old list')
        done = ('ld', ('fld', THIS, 'Table', 'recordsindex_complete'))
        p = f.path_avoiding(None, lambda w: w.op == 'ret', lambda w: w.bb in scc, skip=veto(f, lambda k: nonzero(k, done)))
        rep.ob('fill', f.q + ' unless done', p is None, floc(f), 'the list may be left unfilled: %s' % path_lines(p or []))
    for s in stores(P, 'Table', 'recordsindex_complete'):
        e = s.fn.e(s.ops[0])
        if e == ('c', 0):
            continue
        rep.ob('fill', 'complete in %s' % s.fn.q, s.fn is f, loc(s), 'the list is declared complete where it was not filled')


def removed(P, f, c):
    e, tv = (c[1], False) if c[0] == 'not' else (c, True)
    if e[0] == 'res' and f.ins[e[1]].is_call and 'TableRecord::is_removed' in P.target_qs(f.ins[e[1]]):
        return tv
    if e[0] == 'cmp' and e[1] in ('eq', 'ne') and any(s == ('c', 0) for s in e[2:]):
        o = e[3] if e[2] == ('c', 0) else e[2]
        if o[0] == 'ld' and any(s[0] == 'fld' and s[2] == 'TableRecord' for s in walk(o)):
            return (e[1] == 'ne') == tv
        if o[0] == 'res' and f.ins[o[1]].is_call and 'TableRecord::is_removed' in P.target_qs(f.ins[o[1]]):
            return (e[1] == 'ne') == tv
    return None


def counter(f, scc):
    """(expression, initial values, values brought round) of the loop counter: a phi or a local in memory"""
    for p, ini, bk in loop_phis(f, scc):
        if f.e(p.id)[0] == 'phi' and all(not f.e(v)[0] == 'null' for v in ini):
            e = ('phi', p.id)
            if any(any(t == e for t in walk(c)) for b in scc for s in f.nsucc[b] if s not in scc for c in edge_conds(f, b, s)):
                return e, [f.e(v) for v in ini], [f.e(v) for v in bk]
    for b in sorted(scc):
        for s in f.nsucc[b]:
            if s in scc:
                continue
            for c in edge_conds(f, b, s):
                for t in walk(c):
                    if t[0] == 'ld' and t[1][0] == 'alloca':
                        st = [y for y in f.all() if y.op == 'store' and f.e(y.ops[1]) == t[1]]
                        if st:
                            return t, [f.e(y.ops[0]) for y in st if y.bb not in scc], [f.e(y.ops[0]) for y in st if y.bb in scc]
    return None


def sources(P, rep, fills):
    for x in P.calls_to('Table::export_to_xml'):
        f = rep.saw(x.fn)
        t = f.e(x.ops[0])
        d = f.ins[t[1]] if t[0] == 'res' else None
        ok = lambda w: w.is_call and P.target_qs(w) & fills and f.e(w.ops[0]) == t
        skip = veto(f, lambda c: c[0] == 'res' and 'Index::is_primary' in P.target_qs(f.ins[c[1]]) if c[0] == 'res' and f.ins[c[1]].is_call else False)
        p = f.path_avoiding(d, lambda w: w is x, ok, skip=skip)
        rep.ob('source', '%s' % f.q, p is None, loc(x), 'the records of a table without a primary index are not in the export: their list is not filled: %s' % path_lines(p or []))


# ---------------------------------------------------------------- iterators
def iterators(P, rep):
    for cls, fld in (('TableIterator', 'phys_record_num'), ('IndexedTableIterator', 'index_record_num')):
        N = ('ld', ('fld', THIS, cls, fld))
        A = ('fld', THIS, cls, fld)
        fs = [f for f in P.functions.values() if f.q.startswith(cls + '::')]
        if not fs:
            raise Broken('%s vanished' % cls)
        adv = set()
        for f in fs:
            for y in f.all():
                if y.op == 'store' and f.e(y.ops[1]) == A:
                    rep.saw(f)
                    e = f.e(y.ops[0])
                    if f.name.find('C2E') >= 0 or f.name.find('C1E') >= 0:
                        rep.ob('next', '%s from the start' % cls, e == ('c', 0), loc(y), 'the iteration starts at record %s' % show(e, f))
                        fnd = f.path_avoiding(y, lambda w: w.op == 'ret', lambda w: w.is_call and any(finds(P, g, cls) for g in P.target_fns(w)) )
                        rep.ob('next', '%s looks for the first one' % cls, fnd is None, loc(y), 'the first record is taken as it is')
                        continue
                    ok = e == lin_make(lin_add(lin_of(N), (1, {}), 1))
                    rep.ob('next', '%s one by one in %s' % (cls, f.q), ok, loc(y), 'the iteration goes on to %s' % show(e, f))
                    adv.add((f, y))
        finders = [f for f in fs if finds(P, f, cls)]
        for f in finders:
            rep.saw(f)
            recs = [y for y in f.calls() if 'Table::get_record' in P.target_qs(y)]
            ends = [y for y in f.all() if y.op == 'store' and f.e(y.ops[1]) == ('fld', THIS, cls, '_eof')]
            for y in recs:
                e = f.e(y.ops[1])
                if cls.startswith('Indexed'):
                    ok = e[0] == 'res' and 'Index::get_numrec' in P.target_qs(f.ins[e[1]]) and f.e(f.ins[e[1]].ops[1]) == N
                else:
                    ok = e == N
                rep.ob('next', '%s reads its record' % cls, ok, loc(y), 'record %s is read' % show(e, f))
                # after reading: kept unless removed, passed over if removed
                step = [s for g, s in adv if g is f]
                for p in paths(f, y, lambda w: w.op == 'ret' or w in recs or w in step or w in ends):
                    tv = {removed(P, f, c) for c in p.conds} - {None}
                    if p.raw.op == 'ret':
                        rep.ob('next', '%s stops' % cls, tv == {False}, loc(p.raw), 'a removed record is delivered')
                    elif p.raw in step:
                        rep.ob('next', '%s passes over' % cls, tv == {True}, loc(p.raw), 'a record that is not removed is passed over')
                    else:
                        rep.ob('next', '%s goes on' % cls, False, loc(p.raw), 'after a record the search goes on without the next one')
            for y in ends:
                if f.e(y.ops[0]) != ('c', 1):
                    rep.ob('next', '%s end' % cls, False, loc(y), 'the end is %s' % show(f.e(y.ops[0]), f))
                    continue
                last = lambda c: c[0] == 'cmp' and (c[1] in ('uge', 'sge', 'eq') and c[2] == N and amount(P, f, c[3], cls) or c[1] in ('ule', 'sle', 'eq') and c[3] == N and amount(P, f, c[2], cls))
                out = lambda c: cls.startswith('Indexed') and c[0] == 'cmp' and c[1] in ('uge',) and c[2][0] == 'res' and 'Index::get_numrec' in P.target_qs(f.ins[c[2][1]]) and amount(P, f, c[3], 'TableIterator')
                rep.ob('next', '%s end' % cls, any(last(c) or out(c) for c in facts(y)), loc(y), 'the iteration ends before the last record')
            # a return without a record happens only at the end
            eof = ('ld', ('fld', THIS, cls, '_eof'))
            p = f.path_avoiding(None, lambda w: w.op == 'ret', lambda w: w in recs or w in ends, skip=veto(f, lambda c: nonzero(c, eof)))
            rep.ob('next', '%s finds' % cls, p is None and bool(recs), floc(f), 'the search may end without a record and before the end')
        rep.ob('next', '%s searches' % cls, bool(finders), cls, 'no function looks for the next record')
        for f, y in adv:
            if f in finders:
                continue
            p = f.path_avoiding(y, lambda w: w.op == 'ret', lambda w: w.is_call and any(g in finders for g in P.target_fns(w)))
            rep.ob('next', '%s %s' % (cls, f.q), p is None, loc(y), 'the next record is taken as it is, removed or not')
            dbl = [s for g, s in adv if g is f and s is not y and f.path_avoiding(y, lambda w: w is s, lambda w: False)]
            rep.ob('next', '%s %s once' % (cls, f.q), not dbl, loc(y), 'a record is passed over')
        nx = [f for f in fs if f.q == cls + '::next']
        for f in nx:
            ys = [y for g, y in adv if g is f]
            p = f.path_avoiding(None, lambda w: w.op == 'ret', lambda w: w in ys)
            rep.ob('next', '%s advances' % cls, p is None, floc(f), 'next() may stay where it is')


def finds(P, f, cls):
    return f.q.startswith(cls + '::') and any('Table::get_record' in P.target_qs(y) for y in f.calls())


def amount(P, f, e, cls):
    if cls == 'TableIterator':
        return e[0] == 'ld' and e[1][0] == 'fld' and e[1][2:] == ('Table', 'phys_numrecords') or e[0] == 'res' and 'Table::get_phys_numrecords' in P.target_qs(f.ins[e[1]])
    return e[0] == 'res' and 'Index::get_numrecords' in P.target_qs(f.ins[e[1]])

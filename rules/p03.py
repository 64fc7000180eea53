"""P03 page numbers are range-checked against the length of the base."""
from sa.lib import *
from sa.zone import Zone
from rules.p02 import base_of

ASSUMPTIONS = ['integer wrap-around of the page number (32 bit) and of the file size (64 bit) is not modelled in the inequalities']
LEN = ('ld', ('fld', ('arg', 0), 'T_1CD', 'length'))


def run(P, rep):
    rep.rule('read', 'a page is fetched for reading only with a number below the length of the base', 2)
    rep.rule('write', 'a page is fetched for writing only with a number not above the length of the base', 1)
    rep.rule('grow', 'a page just behind the end makes the base one page longer, on disk, in memory and in the header', 4)
    rep.rule('cache', 'the page cache is indexed only below its size', 2)
    rep.rule('copy', 'no more than a page is copied out of a page', 1)
    rep.rule('length', 'the length of the base changes only when it is opened or grows', 1)
    rep.rule('fresh', 'a page that appears in the file is zero-filled and announced in the header', 2)

    def zeff(x):
        q = P.callee_name(x) or ''
        out = []
        if 'MemBlockManager::add_block' in P.target_qs(x) or re.match(r'^std::vector<std::shared_ptr<MemBlock>.*>::(push_back|emplace_back)$', q):
            out.append((('size', ('fld', ('arg', 0), 'MemBlockManager', 'memblocks')), 1))
        return out
    for f in P.functions.values():
        if not f.q.startswith('T_1CD::'):
            continue
        for x in f.calls():
            ts = P.target_qs(x)
            if 'MemBlockManager::get_block' in ts:
                rep.saw(f)
                z = Zone(f)
                rep.ob('read', f.q + ('/%d' % f.nargs), z.lt(z.at(x), f.e(x.ops[1]), LEN), loc(x), 'the page number is not known to be below the length of the base')
            if 'MemBlockManager::get_block_for_write' in ts:
                rep.saw(f)
                z = Zone(f)
                rep.ob('write', f.q, z.le(z.at(x), f.e(x.ops[1]), LEN), loc(x), 'the page number is not known to be within the base or just behind it')
    # growth
    g = rep.need('T_1CD::get_block_for_write')
    inc = [x for x in g.all() if x.op == 'store' and g.e(x.ops[1]) == LEN[1]]
    sz = [x for x in g.calls() if any(q.endswith('::SetSize') for q in P.target_qs(x))]
    hd = [x for x in g.all() if x.op == 'store' and fieldname(g.e(x.ops[1])) == ('v8con', 'length')]
    rep.ob('grow', 'the length is counted up', bool(inc) and all(lin_of(g.e(x.ops[0])) == (1, {LEN: 1}) for x in inc), loc(inc[0]) if inc else floc(g), 'the length of the base does not grow by one page')
    PG = ('ld', ('fld', ('arg', 0), 'T_1CD', 'pagesize'))
    oksz = False
    for x in sz:
        l = lin_of(g.e(x.ops[1]))
        others = {t: c for t, c in l[1].items() if t != PG}
        if l[0] == 0 and l[1].get(PG) == 1 and len(others) == 1:
            t, c = next(iter(others.items()))
            if c == 1 and t[0] == 'res' and any(q.endswith('::GetSize') for q in P.target_qs(g.ins[t[1]])):
                oksz = True
        if l == (0, {('op', 'mul') + tuple(sorted((LEN, PG), key=repr)): 1}) and inc and g.dominates(inc[0], x):
            oksz = True
    rep.ob('grow', 'the file is made one page longer', oksz, loc(sz[0]) if sz else floc(g), 'the file does not grow by one page')
    okh = False
    for x in hd:
        b = base_of(g.e(x.ops[1]))
        src = b[0] == 'res' and g.ins[b[1]].is_call and P.target_qs(g.ins[b[1]]) & {'T_1CD::get_block_for_write', 'MemBlockManager::get_block_for_write'} and g.e(g.ins[b[1]].ops[1]) == ('c', 0) and g.e(g.ins[b[1]].ops[2]) == ('c', 1)
        v = g.e(x.ops[0])
        val = (v == LEN and inc and g.dominates(inc[0], x)) or (inc and v == g.e(inc[0].ops[0]))
        if src and val:
            okh = True
    rep.ob('grow', 'the header page gets the new length', okh, loc(hd[0]) if hd else floc(g), 'the header does not get the new length of the base')
    # on every path where the number equals the length, all three happen before the page is handed out
    for x in g.calls():
        if 'MemBlockManager::get_block_for_write' in P.target_qs(x):
            z = Zone(g)
            for what, lst in (('length', inc), ('file', sz), ('header', hd)):
                p = path_with_eq(g, x, lst)
                rep.ob('grow', what + ' updated whenever the page is just behind the end', p is None, loc(x), 'a new page is handed out without updating the ' + what)
    # cache index
    for f in P.functions.values():
        if not f.q.startswith('MemBlockManager::'):
            continue
        zone = None
        for x in f.calls():
            q = P.callee_name(x) or ''
            if re.match(r'^std::vector<std::shared_ptr<MemBlock>.*>::operator\[\]$', q):
                zone = zone or Zone(f, zeff)
                rep.saw(f)
                st = zone.at(x)
                sizes = [('size', f.e(x.ops[0]))]
                rep.ob('cache', f.q, any(zone.lt(st, f.e(x.ops[1]), s) for s in sizes), loc(x), 'the page cache is indexed without a range check')
    # copy
    for f in P.functions.values():
        for x in f.calls():
            if (P.callee_name(x) or '').startswith('llvm.memcpy'):
                b = base_of(f.e(x.ops[1]))
                if b[0] == 'res' and f.ins[b[1]].is_call and 'MemBlockManager::get_block' in P.target_qs(f.ins[b[1]]):
                    rep.saw(f)
                    n = f.e(x.ops[2])
                    ok, why = True, ''
                    idx = [i for i in range(f.nargs) if any(s == ('arg', i) for s in walk(n))]
                    cand = phi_args(f, x.ops[2])
                    for y in P.calls_to(f.q):
                        if len(y.ops) != f.nargs:
                            continue
                        for i in cand:
                            v = y.fn.e(y.ops[i])
                            if v[0] == 'c' and v[1] <= 4096:
                                continue
                            z = Zone(y.fn)
                            st = z.at(y)
                            lims = [('c', 4096)] + [s for s in walk(v) if is_field_load(s, 'T_1CD', 'pagesize')] + \
                                [y.fn.e(w.id) for w in y.fn.all() if w.raw['t'] != 'void' and is_field_load(y.fn.e(w.id), 'T_1CD', 'pagesize')]
                            if not any(z.le(st, v, l) for l in dict.fromkeys(lims)):
                                ok, why = False, 'in %s %s bytes are asked for' % (y.fn.q, show(v, y.fn))
                    rep.ob('copy', f.q, ok, loc(x), why)
    for x in stores(P, 'T_1CD', 'length'):
        f = rep.saw(x.fn)
        rep.ob('length', f.q, f.q in ('T_1CD::init', 'T_1CD::open', 'T_1CD::get_block_for_write'), loc(x), 'the length of the base is changed here')
    op = rep.need('T_1CD::open')
    for x in op.calls():
        if 'MemBlockManager::create_memblocks' in P.target_qs(x):
            e = op.e(x.ops[1])
            rep.ob('cache', 'size of the cache after opening', e == LEN, loc(x), 'the cache is sized with %s' % show(e, op))
    # fresh pages
    cr = rep.need('MemBlock::create')
    wr = [x for x in cr.calls() if any(STREAM_WRITE.match(q) for q in P.target_qs(x))]
    full = [x for x in wr if cr.e(x.ops[2])[0] != 'c']
    for x in full:
        buf = base_of(cr.e(x.ops[1]))
        cpy = lambda y: y.is_call and (P.callee_name(y) or '').startswith('llvm.memset') and base_of(cr.e(y.ops[0])) == buf and cr.e(y.ops[1]) == ('c', 0) and cr.e(y.ops[2]) == cr.e(x.ops[2])
        rep.ob('fresh', 'zero-filled', any(cpy(y) and cr.dominates(y, x) for y in cr.all()) or zero_init(cr, buf), loc(x), 'the new page is written with undefined contents')
    # contents of a page fetched for writing without reading are zero
    for x in cr.calls():
        q = P.callee_name(x) or ''
        if q == 'std::copy' or q.startswith('llvm.memcpy'):
            rd = lambda y: y.is_call and (any(STREAM_READ.match(t) for t in P.target_qs(y)) or (P.callee_name(y) or '').startswith('llvm.memset'))
            p = cr.path_avoiding(None, lambda y: y is x, rd)
            rep.ob('fresh', 'page contents are read or zeroed', p is None, loc(x), 'the page is filled with undefined contents: ' + path_lines(p or []))


def zero_init(f, buf):
    return False


def phi_args(f, v):
    from rules.p02 import phi_values
    out = set()
    for w in phi_values(f, v):
        e = f.e(w)
        for s in walk(e):
            if s[0] == 'arg' and f.args[s[1]][1].startswith('i'):
                out.add(s[1])
    if isinstance(v, int) and v < f.nargs:
        out.add(v)
    x = f.ins.get(v) if isinstance(v, int) else None
    if x is not None and x.op in ('sext', 'zext', 'trunc'):
        out |= phi_args(f, x.ops[0])
    return out


def path_with_eq(g, x, done):
    """a path from entry to x on which block_number == length may hold and none of `done` executes"""
    ids = {y.id for y in done}

    def veto(b, s):
        t = g.blocks[b][-1]
        if t.op != 'br' or len(t.raw['s']) != 2 or t.raw['s'][0] == t.raw['s'][1]:
            return False
        tr = t.raw['s'][0] == s
        for c, tt in g.decomp(t.ops[0], tr):
            c = truth(c, tt)
            if c[0] == 'cmp' and {('arg', 1), LEN} == set(c[2:]) and c[1] in ('ne', 'ult', 'ugt', 'slt', 'sgt'):
                return True
        return False
    return g.path_avoiding(None, lambda y: y is x, lambda y: y.id in ids, skip=veto)

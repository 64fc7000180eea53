"""P04 reading or writing a byte range of an object touches exactly the bytes of that range."""
from fractions import Fraction
from sa.lib import *
from sa.ir import lin_make
from sa.zone import Zone
from sa.rel import Rel, imp
from sa.affine import Affine, ONE
from rules.p02 import base_of
from sa.report import Broken

ASSUMPTIONS = [
    'the equations are checked for every page size the format allows (4K, 8K, 16K, 32K, 64K), each as a constant',
    'every page of an allocation table in the format before 8.3.8 except the last is full (1023 entries): what set_len builds and init relies on',
    'wrap-around of 32-bit page indices (objects beyond 16 TB) is not modelled',
]
PAGES = [4096, 8192, 16384, 32768, 65536]
V = 'V8Object'


def pagesize_of(e):
    return is_field_load(e, 'T_1CD', 'pagesize')


def run(P, rep):
    rep.rule('range', 'a range is read only when it ends within the object', 3)
    rep.rule('map', 'the page and the offset in it that are touched are those of the position asked for, at every step of the transfer', 10)
    rep.rule('chunk', 'a step of the transfer stays within its page and within the range', 10)
    rep.rule('whole', 'the transfer ends only when the whole range was moved', 4)
    rep.rule('partial', 'a page that is overwritten only in part was read before', 4)
    rep.rule('table', 'a table of pages in the header is copied only when it fits in the header page', 3)
    rep.rule('offset', 'the position in the base file of a byte of an object is computed from the same pages', 3)
    rep.rule('save', 'an object is saved in consecutive pieces that cover it', 2)
    rep.rule('cached', 'a range of a cached object is taken from its start', 1)

    fns = [f for q in ('get_data', 'set_data') for f in P.fns('V8Object::' + q)]
    if len(fns) < 5:
        raise Broken('only %d transfer functions of V8Object found' % len(fns))
    for f in fns:
        rep.saw(f)
        f.dom
        for x in f.all():
            if x.raw['t'] != 'void':
                f.e(x.id)
    def job(t):
        f, ps = t
        r = Record()
        transfer(P, r, f, sig(f), copies(P, f), ps)
        return r.obs
    for obs in parallel(job, [(f, ps) for f in fns for ps in PAGES]):
        for o in obs:
            rep.ob(*o)
    fileoffset(P, rep)
    ranges(P, rep)
    tables(P, rep)
    save(P, rep)


def sig(f):
    """argument positions: buffer (or stream), start, length"""
    kinds = f.args
    n = f.nargs
    ints = [i for i in range(1, n) if kinds[i][1] == 'i64']
    ptrs = [i for i in range(1, n) if kinds[i][1] == 'ptr']
    stream = bool(ptrs) and 'TStream*' in f.d or 'TStream *' in f.d
    d = {'buf': ptrs[0] if ptrs else None, 'stream': stream, 'start': None, 'len': None}
    if len(ints) == 2:
        d['start'], d['len'] = ints
    elif len(ints) == 1:
        d['len'] = ints[0]
    d['name'] = '%s(%s)' % (f.q.split('::')[-1], ', '.join((['stream'] if stream else ['buffer']) * bool(ptrs) + ['start', 'length'][2 - len(ints):] * bool(ints)))
    return d


def copies(P, f):
    """(instr, page pointer operand, other side operand or None, size operand, kind)"""
    out = []
    for x in f.calls():
        q = P.callee_name(x) or ''
        ts = P.target_qs(x)
        if q.startswith(('llvm.memcpy', 'llvm.memmove')):
            for pg, other, k in ((1, 0, 'read'), (0, 1, 'write')):
                e = f.e(x.ops[pg])
                if page_call(P, f, e):
                    out.append((x, x.ops[pg], x.ops[other], x.ops[2], k))
        elif q == 'T_1CD::get_block' and len(x.ops) == 4:
            e = f.e(x.ops[3])
            if is_table_read(P, f, x):
                out.append((x, None, x.ops[1], x.ops[3], 'block'))
        elif any(STREAM_READ.match(t) for t in ts):
            e = f.e(x.ops[1])
            if page_call(P, f, e):
                out.append((x, x.ops[1], None, x.ops[2], 'stream'))
    return out


def is_table_read(P, f, x):
    return page_index(f, f.e(x.ops[2])) is not None


def ptr_base(e):
    while True:
        if e[0] == 'elt':
            e = e[1]
        elif e[0] == 'lin' and any(c == 1 and t[0] in ('res', 'phi') for t, c in e[2]):
            e = next(t for t, c in e[2] if c == 1 and t[0] in ('res', 'phi'))
        else:
            return e


def page_call(P, f, e):
    """the get_block call a pointer expression points into"""
    b = ptr_base(e)
    if b[0] == 'res':
        x = f.ins[b[1]]
        if x.is_call and P.target_qs(x) & {'T_1CD::get_block', 'T_1CD::get_block_for_write'} and x.raw['t'] == 'ptr':
            return x
    return None


def page_index(f, e):
    """a page number expression -> ('direct', index) or (table struct, table pointer, index)"""
    if e[0] != 'ld' or e[1][0] != 'elt':
        return None
    a = e[1]
    b = a[1]
    if b[0] == 'data' and b[1][0] == 'fld' and b[1][2:] == (V, 'blocks'):
        return ('direct', None, a[2])
    if b[0] == 'fld' and b[2] in ('objtab', 'objtab838') and b[3] == 'blocks':
        return (b[2], b[1], a[2])
    return None


def type_consts(P, x):
    """values the object type may have at x"""
    en = enum_values(P, 'v8objtype')
    names = {v: k for k, v in en.items()}
    vals = set(en.values())
    for c in facts(x):
        if c[0] == 'cmp' and c[1] in ('eq', 'ne'):
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                if is_field_load(a, V, 'type') and b[0] == 'c':
                    vals = {v for v in vals if (v == b[1]) == (c[1] == 'eq')}
        elif c[0] == 'in' and is_field_load(c[1], V, 'type'):
            vals &= set(c[2])
    return {names[v] for v in vals}


def norm_for(ps):
    def rep_(e):
        if pagesize_of(e):
            return ('c', ps)
        if e[0] == 'ld' and e[1][0] == 'fld' and e[1][2:] == ('objtab', 'numblocks'):
            return ('c', 1023)
        if e[0] == 'op' and e[1] in ('urem', 'and'):
            # a remainder is what the quotient leaves
            a, b = (refold(s, rep_) for s in e[2:])
            if a[0] == 'c':
                a, b = b, a
            n = b[1] + (e[1] == 'and') if b[0] == 'c' else 0
            if n > 0 and a[0] != 'c' and (e[1] == 'urem' or n & (n - 1) == 0):
                return lin_make(lin_add(lin_of(a), lin_scale(lin_of(('op', 'udiv', a, ('c', n))), -n), 1))
        return None
    return lambda e: refold(e, rep_)


class Tr:
    def __init__(self, P, f, names, ps, sites=()):
        self.P, self.f, self.names = P, f, names
        self.norm = norm_for(ps)
        self.spos = spos = ('spos',)

        def call(rel, s, z, x):
            ts = P.target_qs(x)
            if any(STREAM_READ.match(t) for t in ts) and len(x.ops) > 2 and page_call(P, f, f.e(x.ops[1])):
                rel.a.step(s, x)
                row = dict(rel.lin(x.ops[2]))
                row[spos] = row.get(spos, 0) + 1
                row[('tmp', 's')] = Fraction(-1)
                s.add(row)
                s.havoc(lambda a: a == spos)
                s.add({('tmp', 's'): Fraction(1), spos: Fraction(-1)})
                s.havoc(lambda a: a == ('tmp', 's'))
                rel.z.step(z, x)
                return True
            if any(STREAM_SEEK.match(t) for t in ts) and f.e(x.ops[1]) == ('c', 0):
                rel.a.step(s, x)
                s.havoc(lambda a: a == spos)
                s.add({spos: Fraction(1), ('spos0',): Fraction(-1)})
                rel.z.step(z, x)
                return True

        def ghost(a, x):
            if x.is_call and P.target_qs(x) & {'T_1CD::get_block', 'T_1CD::get_block_for_write'} and x.raw['t'] == 'ptr':
                pi = page_index(f, f.e(x.ops[1]))
                if pi and pi[0] == 'direct':
                    return a.lin_e(pi[2])
            return None
        uns = [('arg', names[k]) for k in ('start', 'len') if names[k] is not None]
        # the inequality that keeps a step within its page, tried as a loop invariant
        tpl = []
        for x, pg, other, n, kind in sites:
            # and the one that keeps the index within a table of pages
            pi = page_index(f, f.e(x.ops[2] if pg is None else page_call(P, f, f.e(pg)).ops[1]))
            if pi and pi[0] != 'direct':
                l = lin_of(self.norm(pi[2]))
                for per in {1023} if pi[0] == 'objtab' else {1024, ps // 4}:
                    tpl.append((dict(l[1]), per - 1 - l[0]))
                    tpl.append((dict(l[1]), per - l[0]))
            if pg is None:
                continue
            e, c = self.norm(f.e(pg)), page_call(P, f, f.e(pg))
            a0 = Affine.__new__(Affine)
            a0._c, a0.norm, a0.fn = {}, self.norm, f
            l = addl((a0.lin_e(e), 1), ({('res', c.id): Fraction(1)}, -1), (a0.lin_e(f.e(n)), 1))
            k = l.pop(ONE, 0)
            if len(l) > 1 and all(v.denominator == 1 for v in l.values()):
                for psz in {4096, ps}:
                    tpl.append(({t: int(v) for t, v in l.items()}, psz - int(k)))
        self.r = Rel(f, templates=tpl, norm=self.norm, ghost=ghost, call=call, seed=[{spos: Fraction(1), ('spos0',): Fraction(-1)}], unsigned=uns)
        self.lin, self.lin_e = self.r.lin, self.r.lin_e


def addl(*ls):
    r = {}
    for l, c in ls:
        for t, k in l.items():
            r[t] = r.get(t, 0) + k * c
            if r[t] == 0:
                del r[t]
    return r


def position(T, site, ps):
    """(linear form of the object position touched, offset form, page size) or None"""
    P, f = T.P, T.f
    x, pg, other, n, kind = site
    types = type_consts(P, x)
    psz = 4096 if types <= {'free80', 'data80'} else ps
    if kind == 'block':
        pi = page_index(f, f.e(x.ops[2]))
        off = {}
    else:
        e = f.e(pg)
        c = page_call(P, f, e)
        l = T.lin_e(e)
        off = addl((l, 1), ({('res', c.id): Fraction(1)}, -1))
        pi = page_index(f, f.e(c.ops[1]))
    if pi is None:
        return None
    if pi[0] == 'direct':
        page = T.lin_e(pi[2])
    else:
        per = 1023 if pi[0] == 'objtab' else psz // 4
        b = pi[1]
        if b[0] == 'res':
            pass
        page = addl((T.lin_e(pi[2]), 1), ({('idx', b): Fraction(1)}, per))
    return addl((page, psz), (off, 1)), off, psz, types


def transfer(P, rep, f, names, sites, ps):
    T = Tr(P, f, names, ps, sites)
    start = {('arg', names['start']): Fraction(1)} if names['start'] is not None else {}
    for site in sites:
        x, pg, other, n, kind = site
        pos = position(T, site, ps)
        types = '/'.join(sorted(type_consts(P, x)))
        inst = '%s, %s' % (names['name'], types)
        if 'fatlevel' in str([show(c, f) for c in facts(x)]):
            two = has_fact(x, lambda c: c[0] == 'cmp' and c[1] == 'ne' and any(is_field_load(s, V, 'fatlevel') for s in c[2:]))
            inst += ', two levels' if two else ', one level'
        if pos is None:
            rep.ob('map', inst, False, loc(x), 'the page touched is not one of the pages of the object')
            continue
        p, off, psz, _ = pos
        sts = T.r.states(x)
        if not sts:
            continue
        atoms = {t for st, z in sts for r in st.rows.values() for t in r if t != ONE}
        # how much was moved so far
        if kind in ('read', 'write', 'block'):
            o = T.lin(other)
            buf0 = {('arg', names['buf']): Fraction(1)} if names['buf'] is not None else None
            cands = [addl((o, 1), (buf0, -1))] if buf0 else []
            if not cands:      # whole object into a buffer of its own
                for t in set(o) | atoms:
                    if t != ONE and (t[0] == 'ld' and fieldname(t) == (V, 'data') or t[0] == 'res' and f.ins[t[1]].is_call and (P.callee_name(f.ins[t[1]]) or '').startswith('operator new')):
                        cands.append(addl((o, 1), ({t: Fraction(1)}, -1)))
        else:
            cands = [{T.spos: Fraction(1), ('spos0',): Fraction(-1)}]
        ok = any(T.r.implies(x, addl((p, 1), (start, -1), (d, -1))) for d in cands)
        rep.ob('map', inst, ok, loc(x), 'page size %d: the place in the pages (%s) is not start + bytes moved so far' % (ps, form(p, f)))
        # chunk
        ne = T.norm(f.e(n))
        offe = lin_make((int(off.get(ONE, 0)), {t: int(c) for t, c in off.items() if t != ONE}))
        inpage = T.r.le(x, lin_make(lin_add(lin_of(ne), lin_of(offe), 1)), ('c', psz))
        rep.ob('chunk', inst + ': within the page', inpage, loc(x), 'page size %d: %s bytes at offset %s are not known to stay within the page' % (ps, show(ne, f), show(offe, f)))
        if names['len'] is not None and names['start'] is not None:
            # bytes left: some value R with R + moved = length, and n <= R
            L = {('arg', names['len']): Fraction(1)}
            terms = {t for t in atoms if t[0] in ('phi', 'arg')} | {('arg', names['len'])}
            okr = any(all(any(imp(st, addl((L, 1), (d, -1), ({t: Fraction(1)}, -1))) for d in cands) for st, z in sts) and T.r.le(x, ne, t) for t in terms)
            rep.ob('chunk', inst + ': within the range', okr, loc(x), 'page size %d: %s bytes are not known to be within the rest of the range' % (ps, show(ne, f)))
            # completion
            scc = {b for b in f.reachable_from(x.bb, f.nsucc) if x.bb in f.reachable_from(b, f.nsucc)}
            for b in scc:
                for s in f.nsucc[b]:
                    if s in scc or throwing_block(f, s) or returns_null(f, s):
                        continue
                    if kind == 'stream':
                        mv = [{T.spos: Fraction(1), ('spos0',): Fraction(-1)}]
                    else:
                        mv = []
                        for t in ptr_root(f, other):
                            mv.append(addl(({t: Fraction(1)}, 1), ({('arg', names['buf']): Fraction(1)}, -1)))
                    okw = True
                    for tok, (st, z) in (T.r.inn[b] or {}).items():
                        for _, s2, z2 in T.r.through(b, tok, st, z):
                            es = T.r.edge(s2, z2, b, s)
                            if es is not None and not any(imp(es[0], addl((L, 1), (d, -1))) for d in mv):
                                okw = False
                    rep.ob('whole', inst, okw, loc(f.blocks[b][-1]), 'page size %d: the loop can end before the whole range was moved' % ps)
        # partial overwrite
        if kind in ('write', 'stream'):
            c = page_call(P, f, f.e(pg))
            if len(c.ops) >= 3 and 'T_1CD::get_block_for_write' in P.target_qs(c):
                rd = c.ops[2]
                e = f.e(rd)
                ok, why = True, ''
                if e == ('c', 0):
                    if names['start'] is not None:
                        ok = T.r.le(c, ('c', psz), ne)
                        why = 'the page is not read although only a part of it is written'
                    else:
                        ok = not off or not any(off.values())
                        why = 'the page is not read although it is not written from its start'
                elif e != ('c', 1):
                    # where the flag is false the whole page must be written
                    for s2, zs2 in T.r.states(c):
                        for cc, tt in f.decomp(rd, False):
                            T.r.z.assume(zs2, truth(cc, tt))
                        ok = ok and (T.r.z.le(zs2, ('c', psz), ne) or T.r.le_eq(s2, zs2, ('c', psz), ne))
                    why = 'the page may be overwritten in part without having been read'
                rep.ob('partial', inst, ok, loc(c), 'page size %d: %s' % (ps, why))


def ptr_root(f, op):
    e = f.e(op)
    from sa.affine import Affine
    out = []
    st = [e]
    while st:
        t = st.pop()
        if t[0] in ('phi',):
            out.append(t)
        elif t[0] == 'elt':
            st.append(t[1])
        elif t[0] == 'lin':
            st += [a for a, c in t[2] if c == 1]
    return out


def returns_null(f, s):
    seen = set()
    while s not in seen:
        seen.add(s)
        t = f.blocks[s][-1]
        if t.op == 'ret':
            v = t.ops[0] if t.ops else None
            return True if isinstance(v, dict) and v.get('k') in ('null',) else False
        if t.op == 'br' and len(t.raw['s']) == 1:
            nx = t.raw['s'][0]
            for x in f.blocks[nx]:
                if x.op == 'phi':
                    for pb, v in x.raw['in']:
                        if pb == s and isinstance(v, dict) and v.get('k') == 'null' and any(u.op == 'ret' for u in f.users[x.id]):
                            return True
            s = nx
        else:
            return False
    return False


def form(l, f):
    return ' + '.join('%s*%s' % (c, show(t, f) if t != ONE else '1') if t != ONE else str(c) for t, c in sorted(l.items(), key=repr)) or '0'


def fileoffset(P, rep):
    f = rep.need('V8Object::get_fileoffset')
    offs = [i for i in range(1, f.nargs)]
    if not offs:
        raise Broken('V8Object::get_fileoffset takes no offset')
    from rules.p02 import phi_values
    for ps in PAGES:
        names = {'start': offs[0], 'len': None, 'buf': None, 'stream': False}
        T = Tr(P, f, names, ps)
        seen = set()
        for r in f.rets():
            for v in phi_values(f, r.ops[0]):
                l = T.lin(v)
                pn = [(t, c) for t, c in l.items() if t != ONE and page_index(f, t)]
                if not pn:
                    ok0 = not any(t != ONE for t in l)
                    rep.ob('offset', 'constant result', ok0 and l.get(ONE, 0) == 0, loc(r), 'a position is returned that does not come from the pages of the object')
                    continue
                src = f.ins[v] if isinstance(v, int) and v >= f.nargs else r
                types = type_consts(P, src)
                psz = 4096 if types <= {'free80', 'data80'} else ps
                (t, c) = pn[0]
                pi = page_index(f, t)
                off = {a: k for a, k in l.items() if a != t}
                if pi[0] == 'direct':
                    page = T.lin_e(pi[2])
                else:
                    per = 1023 if pi[0] == 'objtab' else psz // 4
                    page = addl((T.lin_e(pi[2]), 1), ({('idx', pi[1]): Fraction(1)}, per))
                p = addl((page, psz), (off, 1), ({('arg', offs[0]): Fraction(1)}, -1))
                offe = lin_make((int(off.get(ONE, 0)), {a: int(k) for a, k in off.items() if a != ONE}))
                rep.ob('offset', '/'.join(sorted(types)) + (', two levels' if pi[0] != 'direct' and '838' in str(types) else ''),
                       len(pn) == 1 and c == psz and T.r.implies(after(f, src), p) and T.r.le(after(f, src), offe, ('c', psz - 1)), loc(src), 'page size %d: the position is not that of the byte asked for' % ps)


def after(f, x):
    """the instruction that follows x in its block"""
    return f.blocks[x.bb][min(x.pos + 1, len(f.blocks[x.bb]) - 1)]


def ranges(P, rep):
    for f in P.fns('V8Object::get_data'):
        names = sig(f)
        if names['start'] is None:
            continue
        z = Zone(f)
        S, L = ('arg', names['start']), ('arg', names['len'])
        end = lin_make((0, {S: 1, L: 1}))
        LEN = ('ld', ('fld', ('arg', 0), V, 'len'))
        for x in f.calls():
            q = P.callee_name(x) or ''
            pc = P.target_qs(x) & {'T_1CD::get_block'}
            cached = q.startswith(('llvm.memcpy', 'llvm.memmove')) and any(fieldname(s) == (V, 'data') for s in walk(f.e(x.ops[1])) if s[0] == 'ld')
            if not pc and not cached:
                continue
            st = z.at(x)
            types = type_consts(P, x)
            lims = []
            if types == {'free80'}:
                lims = [lin_make((0, {LEN: 4}))]
            elif 'free80' not in types:
                lims = [LEN]
            lims += [('res', y.id) for y in f.calls() if 'V8Object::get_len' in P.target_qs(y)]
            # len may have been multiplied in another form
            ok = any(z.le(st, end, l) for l in lims)
            rep.ob('range', 'cached data' if cached else '/'.join(sorted(types)), ok, loc(x), 'data is taken from the object without start + length having been compared with its length')
            if cached:
                src = refold(f.e(x.ops[1]), lambda e: None)
                T = Affine(f)
                l = T.lin(x.ops[1])
                want = {('ld', ('fld', ('arg', 0), V, 'data')): 1, S: 1}
                rep.ob('cached', names['name'], {k: int(v) for k, v in l.items()} == want and f.e(x.ops[2]) == L and f.e(x.ops[0]) == ('arg', names['buf']), loc(x), 'the bytes copied from the cached object are not those of the range')
    # the length reported: entries of the free list are 4 bytes
    g = rep.need('V8Object::get_len')
    from sa.absint import AI
    en = enum_values(P, 'v8objtype')
    for n, v in en.items():
        key = ('ld', ('fld', ('arg', 0), V, 'len'))
        ai = AI(P)
        out = {r for k, r, m in ai.run(g, {}, {('fld', ('arg', 0), V, 'type'): v, ('fld', ('arg', 0), V, 'len'): 100}) if k == 'ret'}
        if n in ('data80', 'data838', 'free80'):
            rep.ob('range', 'length of ' + n, out == {400 if n == 'free80' else 100}, floc(g), 'for 100 units the length is %s' % out)


def tables(P, rep):
    for f in P.fns('V8Object::init'):
        for ps in PAGES:
            norm = norm_for(ps)
            z = None
            for x in f.calls():
                q = P.callee_name(x) or ''
                if not (q in ('std::copy', 'std::copy_n') or q.startswith('llvm.memcpy')):
                    continue
                args = [f.e(a) for a in x.ops]
                hdr = [s for a in args for s in walk(a) if s[0] == 'fld' and s[3] == 'blocks' and s[2] in ('v8ob', 'v838ob_data', 'v838ob_free')]
                if not hdr:
                    continue
                rep.saw(f)
                z = z or Zone(f, norm=norm)
                st = z.at(x)
                cap = 1018 if hdr[0][2] == 'v8ob' else ps // 4 - 6
                # number of entries copied
                if q == 'std::copy':
                    a = Affine(f, norm=norm)
                    l = addl((a.lin(x.ops[1]), 1), (a.lin(x.ops[0]), -1))
                    n = {t: c / 4 for t, c in l.items()}
                elif q == 'std::copy_n':
                    n = Affine(f, norm=norm).lin(x.ops[1])
                else:
                    n = {t: c / 4 for t, c in Affine(f, norm=norm).lin(x.ops[2]).items()}
                ne = lin_make((int(n.get(ONE, 0)), {t: int(c) for t, c in n.items() if t != ONE}))
                rep.ob('table', 'page table of %s (%s)' % (hdr[0][2], show(ne, f)), z.le(st, ne, ('c', cap)), loc(x), 'page size %d: %s entries are copied, the header page has room for %d' % (ps, show(ne, f), cap))


def save(P, rep):
    f = rep.need('V8Object::savetofile')
    a = Affine(f, zone=None)
    z = Zone(f)
    gets = [x for x in f.calls() if 'V8Object::get_data' in P.target_qs(x) and len(x.ops) == 4]
    ws = [x for x in f.calls() if any(STREAM_WRITE.match(q) for q in P.target_qs(x))]
    for w in ws:
        same = [g for g in gets if f.e(g.ops[1]) == f.e(w.ops[1]) and f.e(g.ops[3]) == f.e(w.ops[2]) and f.dominates(g, w)]
        rep.ob('save', 'what is written is what was read', bool(same), loc(w), 'the piece written differs from the piece read')
    total = [('res', x.id) for x in f.calls() if 'V8Object::get_len' in P.target_qs(x)]
    for e in [f.e(v) for v in []]:
        pass
    for g in gets:
        st = a.at(g)
        off, n = f.e(g.ops[2]), f.e(g.ops[3])
        terms = {t for r in st.rows.values() for t in r if t[0] == 'phi'}
        zs = z.at(g)
        # remaining R: R + offset = total, n = min(R, page) ; offset grows by a page each time
        T = total or [e for e in {t for r in st.rows.values() for t in r} if t[0] != 'one' and t[0] != 'phi']
        ok = any(st.implies(addl(({t: Fraction(1)}, 1), (a.lin(g.ops[2]), 1), ({tt: Fraction(1)}, -1))) and z.le(zs, n, t) for t in terms for tt in T)
        okd = any(z.le(zs, n, lin_make(lin_add(lin_of(tt), lin_of(off), -1))) for tt in T)
        rep.ob('save', 'pieces stay within the object', ok or okd, loc(g), 'a piece may reach beyond the object or overlap another')
        if off[0] == 'phi':
            ph = f.ins[off[1]]
            steps = []
            for pb, v in ph.raw['in']:
                if v != off[1] and f.bdom(ph.bb, pb):
                    d = lin_add(lin_of(f.e(v)), lin_of(off), -1)
                    steps.append(lin_make(d))
                else:
                    rep.ob('save', 'starts at the beginning', f.e(v) == ('c', 0), loc(g), 'the first piece starts at %s' % show(f.e(v), f))
            for s in steps:
                cover = n == s or (n[0] == 'min' and s in n[1:])
                rep.ob('save', 'consecutive', cover, loc(g), 'the pieces advance by %s but are %s long' % (show(s, f), show(n, f)))

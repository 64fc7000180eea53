"""P08 streams: positions, ends and failures."""
from sa.lib import *
from sa.rel import Rel
from sa.ir import lin_of
from rules.p01 import open_bits
from rules.p06 import ret_cases
from sa.terms import leaves
from sa.paths import paths

ASSUMPTIONS = ['std::iostream, std::vector and boost::filesystem behave as documented', 'a caller asks for no negative number of bytes',
               'file sizes and positions fit 63 bits']
TS, TM, TW, TF = NS + 'TStream', NS + 'TMemoryStream', NS + 'TWrapperStream', NS + 'TFileStream'
THIS = ('arg', 0)
POS = ('ld', ('fld', THIS, TS, 'm_position'))
SIZE = ('ld', ('fld', THIS, TS, 'm_size'))
P0, S0 = ('ghost', 'pos'), ('ghost', 'size')


def run(P, rep):
    rep.rule('place', 'a file stream reads and writes at its position', 4)
    rep.rule('amount', 'reading delivers what there is from the position on, at most what was asked for; writing takes the whole buffer', 4)
    rep.rule('advance', 'the position moves by what was delivered or written, and the size covers what was written', 6)
    rep.rule('memory', 'a memory stream touches only bytes it has', 3)
    rep.rule('failed', 'an unsuccessful read, write or opening is an exception', 4)
    rep.rule('seek', 'a seek moves to the place asked for when it lies in the stream, and is refused otherwise', 8)
    rep.rule('position', 'the position changes in no other way', 8)
    rep.rule('reopen', 'only creating a file empties it; closing and reopening keep contents and position', 6)
    rep.rule('size', 'the size of a file stream is the length of the file, and a stream that is cut is cut in the file', 4)
    rep.rule('copy', 'copying moves the bytes that could be read and no others', 4)
    rep.rule('shared', 'a stream over a file in a container stays inside that file', 4)
    wrapper_read(P, rep)
    wrapper_write(P, rep)
    memory(P, rep)
    seek(P, rep)
    positions(P, rep)
    files(P, rep)
    copy(P, rep)
    container(P, rep)
    pages(P, rep)


def may_move(P):
    """calls that may change the position or the size of a stream"""
    def base(x, k):
        if x.op != 'store':
            return False
        a = x.fn.e(x.ops[1])
        return a[0] == 'fld' and a[2] == TS and a[3] == k
    ms = {k: P.may(lambda x, k=k: base(x, k)) for k in ('m_position', 'm_size')}

    def call(r, s, z, x):
        ks = [k for k in ms if P.does(x, ms[k])]
        if ks:
            bad = lambda t: t[0] not in ('tmp', 'one', 'ghost') and any(e[0] == 'fld' and e[2] == TS and e[3] in ks for e in walk(t))
            s.havoc(bad)
            for it in list(z):
                if any(bad(t) for t, _ in it):
                    del z[it]
        return False
    return call


def rel(P, f, **k):
    return Rel(f, seed=[{POS: 1, P0: -1}, {SIZE: 1, S0: -1}], call=may_move(P), **k)


def std(x, *names):
    """call of a member of a standard stream"""
    if not x.is_call:
        return False
    q = x.fn.prog.callee_name(x) or ''
    return q.startswith('std::') and q.split('::')[-1] in names


def eqv(r, x, e, g):
    """e equals g when x executes"""
    row = dict(r.lin_e(e))
    for t, c in (g.items() if isinstance(g, dict) else [(g, 1)]):
        row[t] = row.get(t, 0) - c
    return r.implies(x, row)


def methods(P, q):
    return [f for f in P.functions.values() if f.q == q]


def raw(P, q):
    """the overload on a plain buffer"""
    return [f for f in methods(P, q) if 'void' in f.d.split('(', 1)[-1] and 'vector' not in f.d]


def bad_test(f, x, names):
    """condition: the stream was found without the failure after instruction x"""
    tests = [y for y in f.calls() if std(y, *names[0])]
    goods = [y for y in f.calls() if std(y, *names[1])]

    def p(c):
        return any(iszero(c, f.e(y.id)) for y in tests if f.may_follow(x, y)) or any(nonzero(c, f.e(y.id)) for y in goods if f.may_follow(x, y))
    return p


def io(P, rep, f, op, seeks):
    """the transfer calls of f and the rule `place`"""
    xs = [x for x in f.calls() if std(x, op)]
    nm = f.q.split('::')[-2] + '::' + f.q.split('::')[-1]
    rep.ob('place', nm, bool(xs), floc(f), 'nothing is transferred')
    r = rel(P, f)
    for x in xs:
        p = f.path_avoiding(None, lambda y: y is x, lambda y: std(y, *seeks) and len(y.ops) >= 3 and f.e(y.ops[2]) == ('c', 0) and eqv(r, y, f.e(y.ops[1]), P0))
        rep.ob('place', nm + ' seeks', p is None, loc(x), 'the transfer does not start at the position of the stream')
        others = [y for y in f.calls() if std(y, 'seekg', 'seekp', 'read', 'write', 'get', 'put', 'ignore', 'close', 'open') and y is not x
                  and f.may_follow(y, x) and not (std(y, *seeks) and len(y.ops) >= 3 and f.e(y.ops[2]) == ('c', 0) and eqv(r, y, f.e(y.ops[1]), P0))]
        rep.ob('place', nm + ' only there', not others and not f.in_loop(x), loc(others[0] if others else x), 'the place is changed before the transfer')
        rep.ob('amount', nm, f.e(x.ops[1]) == ('arg', 1) and f.e(x.ops[2]) == ('arg', 2), loc(x), 'not the buffer and the number of bytes given')
    return xs, r


def wrapper_read(P, rep):
    rep.need(TW + '::Read')
    for f in raw(P, TW + '::Read'):
        rep.saw(f)
        xs, r = io(P, rep, f, 'read', ('seekg',))
        for x in xs:
            p = f.path_avoiding(x, lambda y: y.op == 'ret', lambda y: False, skip=veto(f, bad_test(f, x, (('bad',), ()))))
            rep.ob('failed', 'read', p is None, loc(x), 'a failed read returns normally: %s' % path_lines(p or []))
            clr = f.path_avoiding(None, lambda y: y is x, lambda y: std(y, 'clear'))
            rep.ob('amount', 'read after an earlier end of file', clr is None, loc(x), 'a stream that once met its end delivers nothing any more')
        for v, e, conds, y in ret_cases(f):
            g = f.ins.get(e[1]) if e[0] == 'res' else None
            ok = g is not None and std(g, 'gcount') and any(f.dominates(x, g) for x in xs) or e == ('c', 0) and any(is_cmp(c, 'eq sle ule', ('arg', 2), ('c', 0)) or c == ('cmp', 'slt', ('arg', 2), ('c', 1)) for c in conds)
            rep.ob('amount', 'number delivered', ok, loc(y), 'the number of bytes delivered is not returned')
        for y in f.rets():
            row = dict(r.lin(y.ops[0]))
            row[P0] = row.get(P0, 0) + 1
            ok = eqv(r, y, POS, row)
            rep.ob('advance', 'read', ok, loc(y), 'the position does not move by what was delivered')
            rep.ob('advance', 'read keeps the size', eqv(r, y, SIZE, S0), loc(y), 'the size changes')


def wrapper_write(P, rep):
    rep.need(TW + '::Write')
    for f in raw(P, TW + '::Write'):
        rep.saw(f)
        xs, r = io(P, rep, f, 'write', ('seekp',))
        for x in xs:
            fl = [y for y in f.calls() if std(y, 'flush', 'sync')]
            tests = [y for y in f.calls() if std(y, 'fail', 'good', 'operator!', 'operator bool')]
            p = f.path_avoiding(x, lambda y: y.op == 'ret', lambda y: y in fl)
            rep.ob('failed', 'flush', p is None, loc(x), 'what was written may stay in a buffer whose failure nobody sees')
            for y in fl:
                p = f.path_avoiding(y, lambda z: z.op == 'ret', lambda z: False, skip=veto(f, bad_test(f, y, (('fail', 'operator!'), ('good', 'operator bool')))))
                rep.ob('failed', 'write', p is None, loc(x), 'a failed write returns normally: %s' % path_lines(p or []))
        for y in f.rets():
            e = f.e(y.ops[0])
            rep.ob('amount', 'number written', e == ('arg', 2), loc(y), 'the number of bytes written is not returned')
            rep.ob('advance', 'write', eqv(r, y, POS, {P0: 1, ('arg', 2): 1}), loc(y), 'the position does not move by what was written')
            ok = r.le(y, POS, SIZE) and all(r.le_eq(s, z, P0S(S0), SIZE) for s, z in r.states(y))
            ok2 = all(imp(s, {SIZE: 1, S0: -1}) or imp(s, {SIZE: 1, POS: -1}) or size_cases(f, s) for s, z in r.states(y))
            grown = grows(P, f, r, y)
            rep.ob('advance', 'size', grown, loc(y), 'the size does not become the larger of the old size and the new position')


def P0S(g):
    return g


def imp(s, row):
    return s.implies(row)


def size_cases(f, s):
    return False


def grows(P, f, r, y):
    """on every path to y the size is the new position or known not to be smaller, and it only ever becomes the position"""
    st = [x for x in f.all() if x.op == 'store' and f.e(x.ops[1]) == SIZE[1]]
    for x in st:
        v = f.e(x.ops[0])
        m = r.z.n(v)
        big = m[0] == 'max' and any(newpos(f, r, a) or eqv(r, x, a, {P0: 1, ('arg', 2): 1}) for a in m[1:]) and any(a == SIZE or eqv(r, x, a, S0) for a in m[1:])
        if not big and not (eqv(r, x, v, {P0: 1, ('arg', 2): 1}) and r.le(x, SIZE, v)):
            return False
    # a path without the store implies that the size is large enough
    def enough(c):
        return c[0] == 'cmp' and (c[1] in ('sle', 'ule', 'slt', 'ult', 'eq') and newpos(f, r, c[2]) and c[3] == SIZE or
                                  c[1] in ('sge', 'uge', 'sgt', 'ugt', 'eq') and newpos(f, r, c[3]) and c[2] == SIZE)
    return f.path_avoiding(None, lambda x: x is y, lambda x: x in st, skip=veto(f, enough)) is None


def newpos(f, r, e):
    row = r.lin_e(e)
    return e == POS or row == {POS: 1, ('arg', 2): 1}


def sizes(P, f):
    """the calls in f that return the number of bytes of the vector of a memory stream"""
    return [y for y in f.calls() if std(y, 'size') and any(s[0] == 'fld' and s[2:] == (TM, '_data') for s in walk(f.e(y.ops[0])))]


def vec(e):
    return e[0] == 'ld' and any(s[0] == 'fld' and s[2:] == (TM, '_data') for s in walk(e)) or e == ('fld', THIS, TM, '_data')


DS = ('vsize',)     # the number of bytes of a memory stream


def mnorm(P, f):
    """every expression of the number of bytes of the vector is one atom"""
    sz = {}

    def n(e):
        def rp(s):
            if s[0] == 'res' and s[1] in f.ins and f.ins[s[1]].is_call and std(f.ins[s[1]], 'size') and vec(f.e(f.ins[s[1]].ops[0])):
                return DS
            if s[0] == 'vsize' or s[0] == 'size' and len(s) == 2 and vec(s[1]):
                return DS
            return None
        return refold(e, rp)
    return n


def memory(P, rep):
    rep.need(TM + '::Read')
    for f in raw(P, TM + '::Read'):
        rep.saw(f)
        n = mnorm(P, f)
        mc = [x for x in f.calls() if (x.raw.get('f') or '').startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')) or std(x, 'copy', 'copy_n')]
        r = rel(P, f, norm=n, templates=[({n(moved(f, x)[2]): 1, ('arg', 2): -1}, 0) for x in mc] + [({n(moved(f, x)[2]): 1, POS: 1, DS: -1}, 0) for x in mc])
        rep.ob('memory', 'read copies', len(mc) >= 1, floc(f), 'nothing is copied')
        for x in mc:
            dst, src, cnt = moved(f, x)
            off = src[2] if src[0] == 'elt' else ('c', 0)
            rep.ob('memory', 'read from the position', dst == ('arg', 1) and eqv(r, x, off, P0) and (src[0] == 'elt' and src[3] in (1,)), loc(x), 'the copy does not start at the position')
            rep.ob('memory', 'read within the buffer', r.le(x, n(cnt), ('arg', 2)), loc(x), 'more is copied than was asked for')
            end = lin_make(lin_add(lin_of(n(off)), lin_of(n(cnt)), 1))
            rep.ob('memory', 'read within the stream', r.le(x, end, DS), loc(x), 'bytes behind the end are copied')
        for y in f.rets():
            row = dict(r.lin(y.ops[0]))
            e = n(f.e(y.ops[0]))
            row[P0] = row.get(P0, 0) + 1
            rep.ob('advance', 'memory read', eqv(r, y, POS, row), loc(y), 'the position does not move by what was delivered')
        for v, e, conds, y in ret_cases(f):
            cs = [c for c in conds]
            whole = any(e == moved(f, x)[2] or e in parts(f, x) for x in mc)
            ok = bool(whole) or e == ('c', 0) and nothing(f, n, conds)
            rep.ob('amount', 'memory read returns', ok, loc(y), 'the number of bytes delivered is not returned')
        for x in mc:
            rep.ob('amount', 'memory read delivers all', as_much(f, n, moved(f, x)[2]), loc(x), 'less is delivered than there is')
    rep.need(TM + '::Write')
    for f in raw(P, TM + '::Write'):
        rep.saw(f)
        r = rel(P, f)
        en = [x for x in f.calls() if (TM + '::EnsureSize') in P.target_qs(x) and eqv(r, x, f.e(x.ops[1]), {P0: 1, ('arg', 2): 1})]
        w = [x for x in f.all() if x.op == 'store' and vec_elem(f, f.e(x.ops[1]))] + \
            [x for x in f.calls() if ((x.raw.get('f') or '').startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')) or std(x, 'copy', 'copy_n')) and vec_elem(f, moved(f, x)[0])]
        rep.ob('memory', 'write stores', bool(w), floc(f), 'nothing is stored')
        for x in w:
            rep.ob('memory', 'write within the stream', any(f.dominates(y, x) for y in en), loc(x), 'the stream is not made large enough first')
            rep.ob('memory', 'write to the position', *dest(P, f, r, x))
        for y in f.rets():
            rep.ob('advance', 'memory write', eqv(r, y, POS, {P0: 1, ('arg', 2): 1}) or moves_once(f, r, y), loc(y), 'the position does not move by what was written')
            rep.ob('amount', 'memory write', eqv(r, y, f.e(y.ops[0]), ('arg', 2)), loc(y), 'the number of bytes written is not returned')
    f = rep.need(TM + '::EnsureSize')
    n = mnorm(P, f)
    rs = [x for x in f.calls() if std(x, 'resize') and vec(f.e(x.ops[0])) and f.e(x.ops[1]) == ('arg', 1)]
    big = lambda c: c[0] == 'cmp' and (c[1] in ('uge', 'sge', 'ugt', 'sgt') and n(c[2]) == DS and c[3] == ('arg', 1) or c[1] in ('ule', 'sle', 'ult', 'slt') and n(c[3]) == DS and c[2] == ('arg', 1))
    p = f.path_avoiding(None, lambda x: x.op == 'ret', lambda x: x in rs, skip=veto(f, big))
    rep.ob('memory', 'made large enough', p is None, floc(f), 'the stream is not made large enough')
    small = lambda c: c[0] == 'cmp' and (c[1] in ('ult', 'slt', 'ule', 'sle') and n(c[2]) == DS and c[3] == ('arg', 1) or c[1] in ('ugt', 'sgt', 'uge', 'sge') and n(c[3]) == DS and c[2] == ('arg', 1))
    for x in rs:
        rep.ob('memory', 'never cut by writing', has_fact(x, small), loc(x), 'a write may cut the stream')


def nothing(f, n, conds):
    """there is nothing to deliver"""
    for c in conds:
        if c[0] != 'cmp':
            continue
        p, a, b = c[1], n(c[2]), n(c[3])
        if b == ('c', 0) and p in ('sle', 'eq') or a == ('c', 0) and p in ('sge', 'eq'):
            return True
        if b == ('c', 1) and p == 'slt':
            return True
        if {a, b} == {DS, POS}:
            return True
    return False


def as_much(f, n, e):
    """e is the smaller of what was asked for and what there is"""
    n0 = n
    n = lambda e: refold(n0(e), lambda s: POS if s[0] == 'res' and s[1] in f.ins and f.ins[s[1]].op == 'load' and f.e(f.ins[s[1]].ops[0]) == POS[1] else None)
    e2 = n(e)
    rest = lin_make(lin_add(lin_of(DS), lin_of(POS), -1))
    if e2[0] == 'min' and set(e2[1:]) == {('arg', 2), rest}:
        return True
    if e2[0] in ('phi', 'sel'):
        vals = {n(f.e(v)) for _, v in f.ins[e2[1]].raw['in']} if e2[0] == 'phi' else {n(e2[2]), n(e2[3])}
        return vals == {('arg', 2), rest}
    return False


def place(f, e, depth=6):
    """an address in memory; an iterator of the bytes of a memory stream is the address it stands for"""
    if depth == 0:
        return e
    if e[0] == 'ld' and e[1][0] == 'fld' and e[1][1][0] == 'alloca' and e[1][2] == '__gnu_cxx::__normal_iterator':
        return iterator(f, e[1][1], depth) or e
    if e[0] == 'data' and vec(e[1]):
        return ('elt', e[1], ('c', 0), 1)
    if e[0] == 'res' and e[1] in f.ins and f.ins[e[1]].is_call:
        return made(f, f.ins[e[1]], depth) or e
    return e


def made(f, y, depth):
    """the address that a call producing an iterator or a pointer to the bytes stands for"""
    q = (f.prog.callee_name(y) or '').split('::')[-1]
    if std(y, 'begin', 'cbegin', 'data') and vec(f.e(y.ops[0])):
        return ('elt', f.e(y.ops[0]), ('c', 0), 1)
    if q in ('operator+', 'operator-') and '__normal_iterator' in (f.prog.callee_name(y) or '') and len(y.ops) == 2:
        b = iterator(f, f.e(y.ops[0]), depth - 1)
        if b and b[0] == 'elt':
            return ('elt', b[1], lin_make(lin_add(lin_of(b[2]), lin_of(f.e(y.ops[1])), 1 if q == 'operator+' else -1)), 1)
    return None


def iterator(f, a, depth):
    """what the only definition of an iterator variable stands for"""
    if depth == 0:
        return None
    defs = []
    for x in f.all():
        if x.op == 'store':
            d = f.e(x.ops[1])
            if d == a or d[0] == 'fld' and d[1] == a:
                defs.append(place(f, f.e(x.ops[0]), depth - 1))
        elif x.is_call and (x.raw.get('f') or '').startswith('llvm.memcpy') and f.e(x.ops[0]) == a:
            s = f.e(x.ops[1])
            defs.append(iterator(f, s, depth - 1) if s[0] == 'alloca' else None)
    return defs[0] if len(defs) == 1 else None


def moved(f, x):
    """(destination, source, number of bytes) of a call that copies bytes"""
    a = [place(f, f.e(o)) for o in x.ops[:3]]
    if std(x, 'copy'):
        b, e = ((p[1], p[2]) if p[0] == 'elt' and p[3] == 1 else (p, ('c', 0)) for p in a[:2])
        if b[0] != e[0]:
            return a[2], a[0], ('?',)
        return a[2], a[0], lin_make(lin_add(lin_of(e[1]), lin_of(b[1]), -1))
    if std(x, 'copy_n'):
        return a[2], a[0], a[1]
    return a[0], a[1], a[2]


def parts(f, x):
    """the values that the number of bytes copied may have"""
    c = moved(f, x)[2]
    if c[0] == 'phi':
        return [f.e(v) for v in leaves(f, c[1])]
    return [f.e(v) for v in leaves(f, x.ops[2])] if not std(x, 'copy', 'copy_n') else []


def moves_once(f, r, y):
    """the position is moved by what is written on every way on which there is something to write"""
    st = [x for x in f.all() if x.op == 'store' and f.e(x.ops[1]) == POS[1]]
    good = [x for x in st if eqv(r, x, f.e(x.ops[0]), {P0: 1, ('arg', 2): 1})]
    none = lambda c: c[0] == 'cmp' and (c[1] in ('sle', 'ule', 'eq') and c[2:] == (('arg', 2), ('c', 0)) or c[1] in ('sge', 'uge', 'eq') and c[2:] == (('c', 0), ('arg', 2)))
    return bool(good) and good == st and not any(f.may_follow(a, b) for a in st for b in st) and \
        f.path_avoiding(None, lambda z: z is y, lambda z: z in good, skip=veto(f, none)) is None


def vec_elem(f, e):
    """an address inside the bytes of a memory stream"""
    if e[0] == 'elt' or e[0] == 'data':
        return vec(e[1]) or vec_elem(f, e[1])
    if e[0] == 'res' and f.ins[e[1]].is_call and std(f.ins[e[1]], 'operator[]', 'data', 'at'):
        return vec(f.e(f.ins[e[1]].ops[0]))
    return vec(e) and e[0] == 'ld'


def dest(P, f, r, x):
    """does the store/copy move byte i of the buffer to position + i"""
    m = 'a byte is stored at another place'
    if x.op == 'store':
        a = f.e(x.ops[1])
        if a[0] == 'res':
            a = ('elt', None, f.e(f.ins[a[1]].ops[1]), 1)
        v = f.e(x.ops[0])
        if a[0] != 'elt' or v[0] != 'ld':
            return False, loc(x), m
        # offset - position0 == source - buffer
        row = dict(r.lin_e(a[2]))
        for t, c in r.lin_e(v[1]).items():
            row[t] = row.get(t, 0) - c
        row[P0] = row.get(P0, 0) - 1
        row[('arg', 1)] = row.get(('arg', 1), 0) + 1
        return r.implies(x, {t: c for t, c in row.items() if c}), loc(x), m
    d, src, cnt = moved(f, x)
    ok = d[0] == 'elt' and eqv(r, x, d[2], P0) and src == ('arg', 1) and cnt == ('arg', 2)
    return ok, loc(x), m


def snorm(P, f):
    """the size of the stream is one atom"""
    def n(e):
        def rp(s):
            if s[0] == 'res' and s[1] in f.ins and f.ins[s[1]].is_call and method(f.ins[s[1]], 'GetSize') and f.e(f.ins[s[1]].ops[0]) == THIS:
                return SIZE
            return None
        return refold(e, rp)
    return n


def seek(P, rep):
    f = rep.need(TS + '::Seek')
    n = snorm(P, f)
    r = rel(P, f, norm=n)
    st = [x for x in f.all() if x.op == 'store' and f.e(x.ops[1]) == POS[1]]
    rep.ob('seek', 'moves', bool(st), floc(f), 'nothing moves')
    for x in st:
        v = n(f.e(x.ops[0]))
        nm = 'store %d' % st.index(x)
        rep.ob('seek', nm + ' not before the start', r.le(x, ('c', 0), v), loc(x), 'the position may become negative')
        rep.ob('seek', nm + ' not behind the end', r.le(x, v, SIZE), loc(x), 'the position may lie behind the end')
        thrown = f.path_avoiding(x, lambda y: y.is_call and y.raw.get('f') == '__cxa_throw' or y.op == 'resume', lambda y: False, normal=False)
        rep.ob('seek', nm + ' only when accepted', thrown is None, loc(x), 'a refused seek moves the position')
    for k, nm, want in ((0, 'from the start', {('arg', 1): 1}), (2, 'from the end', {SIZE: 1, ('arg', 1): -1}), (1, 'from the position', {P0: 1, ('arg', 1): 1})):
        other = lambda c, k=k: not origin_ok(c, k)
        hit = [q for q in paths(f, None, lambda y: y in st) if all(origin_ok(c, k) for c in q.conds)]
        ok = bool(hit)
        for q in hit:
            row = dict(r.lin_e(n(q.val(q.raw.ops[0]))))
            row[P0] = row.get(P0, 0) + row.pop(POS, 0)
            for t, c in want.items():
                row[t] = row.get(t, 0) - c
            ok = ok and not any(row.values())
        hit = [q.raw for q in hit]
        rep.ob('seek', nm, ok, loc(hit[0]) if hit else floc(f), 'the position is not the one asked for')
        p = f.path_avoiding(None, lambda y: y.op == 'ret', lambda y: y in st, skip=veto(f, other))
        rep.ob('seek', nm + ' or refused', p is None, floc(f), 'a seek is ignored: %s' % path_lines(p or []))
    for y in f.rets():
        rep.ob('seek', 'returns the position', f.e(y.ops[0]) == POS or eqv(r, y, n(f.e(y.ops[0])), {POS: 1}), loc(y), 'the new position is not returned')


def origin_ok(c, k):
    """may the condition hold when the origin is k"""
    o = ('arg', 2)
    if c[0] == 'cmp' and o in c[2:]:
        b = c[3] if c[2] == o else c[2]
        if b[0] == 'c':
            return {'eq': b[1] == k, 'ne': b[1] != k}.get(c[1], True)
    if c[0] == 'in' and c[1] == o:
        return k in c[2]
    return True


def positions(P, rep):
    ok_in = (TS + '::Seek', TW + '::Read', TW + '::Write', TM + '::Read', TM + '::Write')
    for x in stores(P, TS, 'm_position'):
        f = x.fn
        v = f.e(x.ops[0])
        nm = f.q
        if f.q in ok_in or v == ('c', 0) and (f.q.split('::')[-1] == f.q.split('::')[-2] or f.q == TW + '::reset'):
            rep.ob('position', nm, True, loc(x))
        elif f.q == TS + '::SetPosition':
            cs = [c for c in P.calls_to(TS + '::SetPosition')]
            rep.ob('position', nm, not cs, loc(cs[0]) if cs else loc(x), 'a position is set without a check')
        elif f.q.split('::')[-1] == 'SetSize':
            sz = (SIZE, ('arg', 1))
            rep.ob('position', nm, v in sz and has_fact(x, lambda c: c[0] == 'cmp' and (c[1] in ('sgt', 'sge', 'ugt') and c[2] == POS and c[3] in sz or c[1] in ('slt', 'sle', 'ult') and c[3] == POS and c[2] in sz)),
                   loc(x), 'the position changes although it lies in the stream')
        else:
            rep.ob('position', nm, False, loc(x), 'the position changes outside reading, writing and seeking')
    for q in (TM + '::SetSize', TF + '::SetSize'):
        f = rep.need(q)
        sz = (SIZE, ('arg', 1))
        st = [x for x in f.all() if x.op == 'store' and f.e(x.ops[1]) == POS[1] and f.e(x.ops[0]) in sz]
        inside = lambda c: c[0] == 'cmp' and (c[1] in ('sle', 'ule') and c[2] == POS and c[3] in sz or c[1] in ('sge', 'uge') and c[3] == POS and c[2] in sz)
        p = f.path_avoiding(None, lambda y: y.op == 'ret', lambda y: y in st, skip=veto(f, inside))
        rep.ob('position', q.split('::')[-2] + ' cut', p is None, floc(f), 'the position stays behind the end')
    f = rep.need(TM + '::SetSize')
    rs = [x for x in f.calls() if std(x, 'resize') and vec(f.e(x.ops[0])) and f.e(x.ops[1]) == ('arg', 1)]
    p = f.path_avoiding(None, lambda y: y.op == 'ret', lambda y: y in rs)
    rep.ob('size', 'memory stream', p is None, floc(f), 'the size is not set')
    f = rep.need(TM + '::GetSize')
    n = mnorm(P, f)
    for y in f.rets():
        rep.ob('size', 'memory stream size', n(f.e(y.ops[0])) == DS, loc(y), 'the size is not the number of bytes')


def files(P, rep):
    ctors = [f for f in P.functions.values() if f.q == TF + '::TFileStream' and f.nargs >= 3]
    rep.need(TF + '::TFileStream')
    for c in ctors:
        rep.saw(c)
        kind = 'string' if 'string' in c.d else 'path'
        for mode in (0, 2, 0x10, 0x20, 0x30, 0x40, 0x22, 0x32, 0x42, 0xFFFF):
            b = open_bits(P, c, mode)
            ok = bool(b) and all(v is not None and v & 4 and v & 8 for v in b)
            if mode == 0xFFFF:
                ok = ok and all(v & 48 == 48 for v in b)
                txt = 'creating'
            else:
                ok = ok and all(not v & 32 and not v & 1 for v in b)
                ok = ok and all(bool(v & 16) == bool(mode & 2) for v in b)
                txt = 'mode %#x' % mode
            rep.ob('reopen', '%s (%s)' % (txt, kind), ok, floc(c), 'the file is opened with mode bits %s' % sorted(map(str, b)))
            kept = reopen_bits(P, c, mode)
            rep.ob('reopen', 'again, %s (%s)' % (txt, kind), bool(kept) and all(v is not None and not v & 33 and v & 12 == 12 for v in kept) and
                   all(bool(v & 16) == (mode == 0xFFFF or bool(mode & 2)) for v in kept), floc(c), 'the file is reopened with mode bits %s' % sorted(map(str, kept)))
    # opening succeeds or throws
    mk = [x for x in P.calls_to(rx(r'^(std::make_shared|boost::filesystem::basic_fstream<.*>::(open|basic_fstream)|std::basic_fstream<.*>::(open|basic_fstream))$')) if x.fn.q.startswith(TF + '::')]
    rep.ob('failed', 'opening', bool(mk), '', 'no file is opened')
    for x in mk:
        f = x.fn
        p = f.path_avoiding(x, lambda y: y.op == 'ret', lambda y: False, skip=veto(f, lambda c: any(nonzero(c, f.e(y.id)) for y in f.calls() if method(y, 'is_open', 'good') or method(y, 'operator bool') and 'shared_ptr' not in (P.callee_name(y) or ''))))
        rep.ob('failed', 'opening in %s' % f.q, p is None, loc(x), 'a file that could not be opened is not reported')
        p = f.path_avoiding(x, lambda y: y.op == 'ret', lambda y: y.is_call and any(q in (TW + '::reopen', TW + '::init_size', TW + '::reset') for q in P.target_qs(y)))
        rep.ob('size', 'size of an opened file in %s' % f.q, p is None, loc(x), 'the size is not determined')
    # reading and writing open a closed file first
    for m in ('Read', 'Write'):
        for f in raw(P, TF + '::' + m):
            rep.saw(f)
            ws = [x for x in f.calls() if (TW + '::' + m) in P.target_qs(x)]
            ro = [x for x in f.calls() if (TF + '::Reopen') in P.target_qs(x)]
            rep.ob('reopen', 'before %s' % m, bool(ws) and all(any(f.dominates(y, x) for y in ro) for x in ws), floc(f), 'a closed file is used without being opened again')
            for x in ws:
                rep.ob('amount', 'handed on by %s' % m, [f.e(o) for o in x.ops[:3]] == [THIS, ('arg', 1), ('arg', 2)] and all(f.e(y.ops[0]) == f.e(x.id) for y in f.rets()), loc(x), 'another buffer or number of bytes')
    f = rep.need(TF + '::Reopen')
    is_open = lambda c: any(nonzero(c, f.e(y.id)) for y in f.calls() if method(y, 'is_open'))
    opens = lambda y: y.is_call and ((TF + '::open_stream') in P.target_qs(y) or y in mk)
    p = f.path_avoiding(None, lambda y: y.op == 'ret', opens, skip=veto(f, is_open))
    rep.ob('reopen', 'opens a closed file', p is None, floc(f), 'a closed file stays closed')
    touch = P.may(lambda x: x.op == 'store' and x.fn.e(x.ops[1])[0] == 'fld' and x.fn.e(x.ops[1])[2:] == (TS, 'm_position'))
    for q in (TF + '::Reopen', TF + '::Close', TW + '::reopen', TW + '::init_size'):
        f = rep.need(q)
        x = next((y for y in f.all() if P.does(y, touch) and not y.op == 'invoke' or y.op == 'store' and f.e(y.ops[1]) == POS[1]), None)
        rep.ob('reopen', 'position kept by %s' % q.split('::')[-1], x is None, loc(x) if x else floc(f), 'the position is lost')
    f = rep.need(TF + '::Close')
    st = ('ld', ('fld', THIS, TW, '_stream'))
    for y in f.calls():
        if (P.callee_name(y) or '').split('::')[-1] == 'operator->' and any(s[0] == 'fld' and s[-1] == '_stream' for s in walk(f.e(y.ops[0]))):
            ok = has_fact(y, lambda c: nonzero(c, c[2] if c[0] == 'cmp' else c) and any(s[0] == 'fld' and s[-1] == '_stream' for s in walk(c)))
            rep.ob('reopen', 'closing twice', ok, loc(y), 'a closed stream is used')
    f = rep.need(TW + '::init_size')
    sk = [y for y in f.calls() if std(y, 'seekg') and len(y.ops) >= 3 and f.e(y.ops[1]) == ('c', 0) and f.e(y.ops[2]) == ('c', 2)]
    tl = [y for y in f.calls() if std(y, 'tellg')]
    st = [y for y in f.all() if y.op == 'store' and f.e(y.ops[1]) == SIZE[1]]
    ok = bool(tl) and bool(st) and all(any(f.dominates(s, t) for s in sk) for t in tl)
    ok = ok and f.path_avoiding(None, lambda y: y.op == 'ret', lambda y: y in st and f.e(y.ops[0])[0] != 'c') is None
    for t in tl:
        ok = ok and not any(std(y, 'seekg') and y not in sk and f.may_follow(y, t) for y in f.calls())
    rep.ob('size', 'length of the file', ok, floc(f), 'the size is not the length of the file')
    f = rep.need(TF + '::SetSize')
    cut = [y for y in f.calls() if (P.callee_name(y) or '').split('::')[-1] in ('resize_file', 'truncate', 'ftruncate') and f.e(y.ops[1]) == ('arg', 1)]
    n = snorm(P, f)
    no = lambda c: c[0] == 'cmp' and (c[1] in ('sge', 'uge') and c[2] == ('arg', 1) and n(c[3]) == SIZE or c[1] in ('sle', 'ule') and c[3] == ('arg', 1) and n(c[2]) == SIZE) or readonly(f, c)
    p = f.path_avoiding(None, lambda y: y.op == 'ret', lambda y: y in cut, skip=veto(f, no))
    rep.ob('size', 'cut', p is None, floc(f), 'a stream that is cut is not cut in the file')
    for y in cut:
        fl = [z for z in f.calls() if std(z, 'flush', 'close')]
        rep.ob('size', 'cut after flushing', any(f.dominates(z, y) for z in fl), loc(y), 'what was written before comes back after the cut')
        path = f.e(y.ops[0])
        rep.ob('size', 'cut of its own file', any(s[0] == 'fld' and s[2:] == (TF, 'filename') for z in f.all() if z.is_call for s in walk(f.e(z.ops[1]) if len(z.ops) > 1 else ('c', 0)) if z.ops and f.e(z.ops[0]) == path), loc(y), 'another file is cut')
    st = [y for y in f.all() if y.op == 'store' and f.e(y.ops[1]) == SIZE[1] and f.e(y.ops[0]) == ('arg', 1)] + \
         [y for y in f.calls() if any(q in (TS + '::SetSize', TW + '::SetSize') for q in P.target_qs(y)) and f.e(y.ops[1]) == ('arg', 1)]
    p = f.path_avoiding(None, lambda y: y.op == 'ret', lambda y: y in st)
    rep.ob('size', 'set', p is None, floc(f), 'the size is not set')


def readonly(f, c):
    """the file is not open for writing"""
    if c[0] == 'not':
        e = c[1]
    elif c[0] == 'cmp' and c[1] == 'eq' and ('c', 0) in c[2:]:
        e = c[2] if c[3] == ('c', 0) else c[3]
    else:
        return False
    args = [e]
    if e[0] == 'res' and f.ins[e[1]].is_call:
        args = [f.e(o) for o in f.ins[e[1]].ops]
    sub = [s for a in args for s in walk(a)]
    return any(s[0] == 'fld' and s[-1] == 'reopen_mode' for s in sub) and ('c', 16) in sub


def reopen_bits(P, ctor, mode):
    """values of the mode kept for reopening at the end of a constructor"""
    from sa.absint import AI, stdcalls
    key = ('fld', THIS, TF, 'reopen_mode')
    ai = AI(P, call=stdcalls, track=lambda e: e[0] == 'alloca' or e == key)
    return {dict(m).get(key) for k, v, m in ai.run(ctor, {2: mode}) if k == 'ret'}


def copy(P, rep):
    f = rep.need(TS + '::CopyFrom')
    rd = [x for x in f.calls() if method(x, 'Read', 'ReadBuffer') and f.e(x.ops[0]) == ('arg', 1)]
    wr = [x for x in f.calls() if method(x, 'Write', 'WriteBuffer') and f.e(x.ops[0]) == THIS]
    rec = [x for x in f.calls() if method(x, 'CopyFrom') and f.e(x.ops[0]) == THIS]
    rep.ob('copy', 'reads and writes', bool(rd) and bool(wr), floc(f), 'nothing is copied')
    counts = [f.e(x.id) for x in rd]
    for x in rd:
        rep.ob('copy', 'amount read', f.e(x.ops[2]) == ('arg', 2) and has_fact(x, lambda c: nonzero(c, ('arg', 2))) or f.in_loop(x), loc(x), 'not the number of bytes asked for')
    for x in wr:
        c = f.e(x.ops[2])
        rep.ob('copy', 'amount written', c in counts and any(f.dominates(y, x) and f.e(y.id) == c and buf(f, y.ops[1]) == buf(f, x.ops[1]) for y in rd), loc(x), 'not the bytes that were read')
        vecw = any('vector' in g.d for g in P.target_fns(x))
        rep.ob('copy', 'nothing read', not vecw or has_fact(x, lambda k: nonzero(k, c) or k[0] == 'cmp' and k[1] in ('sgt', 'ugt') and k[2] == c), loc(x),
               'when nothing could be read, the whole buffer is written')
    for x in rec:
        ok = f.e(x.ops[1]) == ('arg', 1)
        n = f.e(x.ops[2])
        g = f.ins.get(n[1]) if n[0] == 'res' else None
        ok = ok and g is not None and method(g, 'GetSize') and f.e(g.ops[0]) == ('arg', 1)
        rep.ob('copy', 'whole stream', ok, loc(x), 'not the whole stream is copied')
        sk = [y for y in f.calls() if method(y, 'Seek') and f.e(y.ops[0]) == ('arg', 1) and f.e(y.ops[1]) == ('c', 0) and f.e(y.ops[2]) == ('c', 0)]
        rep.ob('copy', 'whole stream from the start', any(f.dominates(y, x) for y in sk), loc(x), 'the copy does not start at the start')
    goes = wr + rec
    zero = lambda c: is_cmp(c, 'sle', ('c', 0)) and c[2] in counts or is_cmp(c, 'eq', ('c', 0)) or c[0] == 'cmp' and c[1] == 'slt' and c[3] == ('c', 1)
    p = f.path_avoiding(None, lambda y: y.op == 'ret', lambda y: y in goes, skip=veto(f, lambda c: c != ('cmp', 'eq', ('arg', 2), ('c', 0)) and c != ('cmp', 'eq', ('c', 0), ('arg', 2)) and zero(c)))
    rep.ob('copy', 'always', p is None, floc(f), 'something that could be read is not copied: %s' % path_lines(p or []))
    # the overload on vectors
    for f in methods(P, TS + '::Read'):
        if 'vector' not in f.d:
            continue
        rep.saw(f)
        rs = [x for x in f.calls() if std(x, 'resize') and f.e(x.ops[0]) == ('arg', 1)]
        for x in f.calls():
            if method(x, 'Read') and f.e(x.ops[0]) == THIS:
                n = f.e(x.ops[2])
                big = lambda c: c[0] == 'cmp' and (c[1] in ('uge', 'sge', 'ugt', 'sgt') and c[3] == n or c[1] in ('ule', 'sle', 'ult', 'slt') and c[2] == n)
                p = f.path_avoiding(None, lambda y: y is x, lambda y: y in rs and f.e(y.ops[1]) == n, skip=veto(f, big))
                rep.ob('memory', 'read into a vector', p is None, loc(x), 'the vector is not made large enough')
    for f in methods(P, TS + '::Write'):
        if 'vector' not in f.d:
            continue
        rep.saw(f)
        for x in f.calls():
            if method(x, 'Write') and f.e(x.ops[0]) == THIS:
                n = f.e(x.ops[2])
                g = f.ins.get(n[1]) if n[0] == 'res' else None
                ok = n == ('arg', 2) or g is not None and std(g, 'size') and f.e(g.ops[0]) == ('arg', 1) or n[0] in ('size',)
                rep.ob('amount', 'write of a vector', ok, loc(x), 'another number of bytes')


def buf(f, o):
    e = f.e(o)
    while e[0] in ('ld', 'fld', 'elt'):
        e = e[1]
    if e[0] == 'res' and f.ins[e[1]].is_call and std(f.ins[e[1]], 'data', 'operator[]', 'front'):
        return buf(f, f.ins[e[1]].ops[0])
    return e


def container(P, rep):
    f = rep.need('TV8FileStream::Seek')
    key = ('fld', THIS, 'TV8FileStream', 'pos')
    LEN = ('len',)

    def n(e):
        def rp(s):
            if s[0] == 'res' and s[1] in f.ins and f.ins[s[1]].is_call and method(f.ins[s[1]], 'get_file_length'):
                return LEN
            return None
        return refold(e, rp)
    r = Rel(f, norm=n, unsigned=(LEN,))
    st = [x for x in f.all() if x.op == 'store' and f.e(x.ops[1]) == key]
    rep.ob('shared', 'moves', bool(st), floc(f), 'nothing moves')
    for x in st:
        v = n(f.e(x.ops[0]))
        vals = [(v, None)]
        if v[0] == 'phi':
            vals = [(n(f.e(u)), f.blocks[p][-1]) for p, u in f.ins[v[1]].raw['in']]
        for e, at in vals:
            y = at or x
            rep.ob('shared', 'from origin %d' % st.index(x), r.le(y, ('c', 0), e) and r.le(y, e, LEN), loc(x), 'the position may lie outside the file: %s' % show(e, f))
    for m in ('Read', 'Write'):
        for f in raw(P, 'TV8FileStream::' + m):
            rep.saw(f)
            cs = [x for x in f.calls() if ('V8File::' + m.lower()) in P.target_qs(x)]
            pos = ('ld', key)
            g = ('ghost', 'vpos')
            r = Rel(f, seed=[{pos: 1, g: -1}])
            rep.ob('shared', m, bool(cs) and all(f.e(x.ops[1]) == ('arg', 1) and f.e(x.ops[3]) == ('arg', 2) and eqv(r, x, f.e(x.ops[2]), g) for x in cs), floc(f), 'not the place, buffer and number of bytes asked for')
            for y in f.rets():
                row = dict(r.lin(y.ops[0]))
                row[g] = row.get(g, 0) + 1
                rep.ob('shared', m + ' advances', eqv(r, y, pos, row) and f.e(y.ops[0]) in [f.e(x.id) for x in cs], loc(y), 'the position does not move by what was transferred')
    # what a file in a container reads and writes
    for q in ('V8File::read', 'V8File::write'):
        for f in methods(P, q):
            rep.saw(f)
            for x in f.calls():
                if not method(x, 'Read', 'Write', 'CopyFrom') or not any(s[0] == 'fld' and s[-1] == 'data' for s in walk(f.e(x.ops[0]))):
                    continue
                start = next((i for i, a in enumerate(f.args) if i and a[1] == 'i32'), None)
                nargs = [i for i, a in enumerate(f.args) if a[1] in ('i32', 'i64')]
                want = ('arg', nargs[0]) if len(nargs) == 2 else ('c', 0)
                p = f.path_avoiding(None, lambda y: y is x, lambda y: method(y, 'Seek') and f.e(y.ops[0]) == f.e(x.ops[0]) and f.e(y.ops[1]) == want and f.e(y.ops[2]) == ('c', 0))
                rep.ob('shared', '%s/%s' % (q, f.d.split('(')[-1][:40]), p is None, loc(x), 'the place is not the one asked for')


def pages(P, rep):
    """the contents of a page of the database"""
    rd = [x for x in P.calls_to(STREAM_READ) if x.fn.file.endswith('MemBlock.cpp') and x.fn.q != 'MemBlock::MemBlock']
    rep.need('MemBlock::create')
    rep.ob('failed', 'page read', bool(rd), '', 'no page is read')
    for x in rd:
        f = rep.saw(x.fn)
        n = f.e(x.ops[2])
        full = lambda c: is_cmp(c, 'eq', f.e(x.id), n) or c[0] == 'cmp' and (c[1] in ('sge', 'uge') and c[2:] == (f.e(x.id), n) or c[1] in ('sle', 'ule') and c[2:] == (n, f.e(x.id)))
        p = f.path_avoiding(x, lambda y: y.op == 'ret', lambda y: False, skip=veto(f, full))
        rep.ob('failed', 'page cut off in %s' % f.q, p is None, loc(x), 'a page that could not be read whole is used')

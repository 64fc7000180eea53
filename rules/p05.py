"""P05 BLOB chains: bounded, within the file, of the announced length."""
from sa.lib import *
from sa.zone import Zone
from sa.rel import Rel

ASSUMPTIONS = ['the BLOB file of a table does not change while a chain is read',
               'object lengths fit the 64-bit offsets; wrap-around is the subject of P24']
BLK, HEAD, DATA = 256, 6, 250


def run(P, rep):
    rep.rule('block', 'block number n of a chain is read whole from byte 256*n of the BLOB file', 2)
    rep.rule('range', 'a block is read only with a non-zero number below the number of whole blocks in the file', 2)
    rep.rule('end', 'the number of blocks read is bounded by the number of blocks in the file', 2)
    rep.rule('next', 'the next block number is the first word of the block just read', 2)
    rep.rule('size', 'what is taken out of a block is its data, as long as the block says and at most 250 bytes', 2)
    rep.rule('buffer', 'a caller\'s buffer of the announced length is filled from the start and never beyond its end', 1)
    rep.rule('whole', 'a BLOB file whose length is not a multiple of the block size is refused', 2)
    rep.rule('zero', 'a non-empty value without a first block is refused', 2)
    rep.rule('absent', 'a value of a table without a BLOB file is refused', 1)
    rep.rule('length', 'a chain that does not have the announced length is reported or refused', 2)
    rep.rule('replace', 'a value that is to replace the contents of a stream does so', 2)
    rep.rule('args', 'the first block and the length of a value come from the same field, in this order', 5)
    rep.need('Table::readBlob')
    rep.need('V8Object::readBlob')
    rd = [f for f in P.functions.values() if f.q in ('Table::readBlob', 'V8Object::readBlob')]
    for f in rd:
        reader(P, rep, rep.saw(f))
    for f in rd:
        for x in P.calls_to(f.q):
            if P.target_qs(x) and f.name in P.targets(x) and f.q == 'Table::readBlob':
                g = rep.saw(x.fn)
                s, l = g.e(x.ops[2]), g.e(x.ops[3])
                ok = s[0] == 'ld' and l[0] == 'ld'
                if ok:
                    a, b = place(P, s[1]), place(P, l[1])
                    ok = a is not None and b is not None and a[0] == b[0] and lin_add(b[1], a[1], -1) == (4, {})
                rep.ob('args', '%s line %s' % (g.q, key(g, x)), ok, loc(x), 'first block %s, length %s' % (show(s, g), show(l, g)))


def key(f, x):
    """stable number of a call among those of its function"""
    l = [y for y in f.calls() if f.prog.targets(y) == f.prog.targets(x)]
    return sorted(l, key=lambda y: (y.bb, y.pos)).index(x)


def reader(P, rep, f):
    nm = '%s/%d' % (f.q, f.nargs)
    START, LEN = ('arg', 2), ('arg', 3)
    gd = [x for x in f.calls() if 'V8Object::get_data' in P.target_qs(x)]
    if not gd:
        rep.ob('block', nm, False, floc(f), 'no block is read')
        return
    z = Zone(f)
    for x in gd:
        buf, off, cnt = (f.e(o) for o in x.ops[1:4])
        lo = lin_of(off)
        cur = None
        if lo[0] == 0 and len(lo[1]) == 1:
            t, c = next(iter(lo[1].items()))
            if c == BLK:
                cur = t
        rep.ob('block', nm, cur is not None and cnt == ('c', BLK), loc(x), 'reads %s bytes at %s' % (show(cnt, f), show(off, f)))
        if cur is None:
            continue
        st = z.at(x)
        fl = file_lengths(P, f, x)
        nums = [('op', 'udiv', l, ('c', BLK)) for l in fl]
        okr = any(z.lt(st, cur, n) for n in nums)
        rep.ob('range', nm + ' below the end', okr, loc(x), 'the block number %s is not known to be below the number of blocks of the file' % show(cur, f))
        rep.ob('range', nm + ' not zero', any(nonzero(c, cur) for c in facts(x)), loc(x), 'block number 0 may be read as a part of a value')
        scc = loop_of(f, x)
        ok = not scc
        for p, ini, bk in loop_phis(f, scc):
            e = ('phi', p.id)
            steps = []
            for v in bk:
                d = lin_add(lin_of(f.e(v)), lin_of(e), -1)
                steps.append(d[0] if not d[1] else None)
            if not steps or any(s is None for s in steps):
                continue
            if all(s >= 1 for s in steps) and any(z.le(st, e, n) for n in nums) and all(f.e(v)[0] == 'c' for v in ini):
                ok = True
            if all(s <= -1 for s in steps) and all(any(f.e(v) == n for n in nums) for v in ini) and (z.lt(st, ('c', 0), e) or z.le(st, ('c', 0), e)):
                ok = True
        rep.ob('end', nm, ok, loc(x), 'nothing bounds the number of blocks read: a chain that closes on itself is read for ever')
        # the next number
        if cur[0] == 'phi':
            ph = f.ins[cur[1]]
            for p, v in ph.raw['in']:
                e = f.e(v)
                if p in scc:
                    ok = e[0] == 'ld' and place(P, e[1]) == (place(P, buf)[0], place(P, buf)[1]) and width(f, v) == 'i32'
                    rep.ob('next', nm, ok, loc(x), 'the next block number is %s' % show(e, f))
                else:
                    rep.ob('next', nm + ' first', e == START, loc(x), 'the chain starts at %s' % show(e, f))
        else:
            rep.ob('next', nm, False, loc(x), 'the block number is %s' % show(cur, f))
        out = []
        for y in f.calls():
            if y.bb not in scc:
                continue
            q = P.callee_name(y) or ''
            if any(STREAM_WRITE.match(t) for t in P.target_qs(y)) and f.e(y.ops[0]) == ('arg', 1):
                out.append((y, y.ops[1], y.ops[2], False))
            if q.startswith('llvm.memcpy') or q.startswith('llvm.memmove'):
                out.append((y, y.ops[1], y.ops[2], True))
        rep.ob('size', nm, bool(out), loc(x), 'nothing is taken out of the block')
        base, off0 = place(P, buf)
        for y, src, num, mem in out:
            s, n = f.e(src), f.e(num)
            ps = place(P, s)
            rep.ob('size', nm + ' from the data', ps is not None and ps[0] == base and lin_add(ps[1], off0, -1) == (HEAD, {}), loc(y), 'taken from %s' % show(s, f))
            own = [t for t in walk(n) if t[0] == 'ld' and place(P, t[1]) is not None and place(P, t[1])[0] == base and lin_add(place(P, t[1])[1], off0, -1) == (4, {})]
            rep.ob('size', nm + ' length of the block', bool(own) and (n == own[0] or n[0] == 'min'), loc(y), '%s bytes are taken' % show(n, f))
            sy = z.at(y)
            rep.ob('size', nm + ' within the block', any(z.le(sy, t, ('c', DATA)) for t in own + [n]), loc(y), 'more than %d bytes may be taken out of a block' % DATA)
            # every block read is taken over
            p = f.path_avoiding(x, lambda w: w is x or w.op == 'ret', lambda w: w is y)
            rep.ob('size', nm + ' every block', p is None, loc(y), 'a block can be skipped: %s' % path_lines(p or []))
            if mem:
                buffer(P, rep, f, nm, y, LEN, own)
        # whole number of blocks
        mult = lambda c: any(is_cmp(c, 'eq', lin_make_mul(l), l) or
                             iszero(c, ('op', 'urem', l, ('c', BLK))) or iszero(c, ('op', 'and', l, ('c', BLK - 1))) for l in fl)
        p = f.path_avoiding(None, lambda w: w is x, lambda w: False, skip=veto(f, mult))
        rep.ob('whole', nm, p is None, loc(x), 'blocks are read from a file whose length is not a multiple of 256')
    p = f.path_avoiding(None, lambda w: w.op == 'ret', lambda w: False, skip=veto(f, lambda c: nonzero(c, START) or iszero(c, LEN)))
    rep.ob('zero', nm, p is None, floc(f), 'returns normally without a first block')
    if f.nargs == 5:
        p = f.path_avoiding(None, lambda w: w.op == 'ret' or w in gd, lambda w: method(w, 'SetSize') and f.e(w.ops[0]) == ('arg', 1) and f.e(w.ops[1]) == ('c', 0),
                            skip=veto(f, lambda c: iszero(c, ('arg', 4))))
        rep.ob('replace', nm, p is None, floc(f), 'what the stream held before stays in front of the value')
    if f.q.startswith('Table::'):
        fb = ('ld', ('fld', ('arg', 0), 'Table', 'file_blob'))
        p = f.path_avoiding(None, lambda w: w.op == 'ret', lambda w: False, skip=veto(f, lambda c: nonzero(c, fb)))
        rep.ob('absent', nm, p is None, floc(f), 'returns normally without a BLOB file')
    # length check
    report = lambda w: w.is_call and (method(w, 'AddDebugMessage', 'AddMessage', 'AddMessage_', 'AddError', 'AddDetailedMessage'))

    def length_eq(c):
        if is_cmp(c, 'eq', LEN, ('c', -1)) or is_cmp(c, 'eq', LEN, ('c', 0xffffffff)):
            return f.q.startswith('V8Object')
        return c[0] == 'cmp' and c[1] == 'eq' and any(s == LEN for s in walk(c)) and not any(s in (('c', 0), ('null',)) for s in c[2:])
    p = f.path_avoiding(None, lambda w: w.op == 'ret', report, skip=veto(f, length_eq))
    rep.ob('length', nm, p is None, floc(f), 'a value of another length is returned without a word: %s' % path_lines(p or []))


def lin_make_mul(l):
    return lin_make((0, {('op', 'udiv', l, ('c', BLK)): BLK}))


def width(f, v):
    while isinstance(v, int) and v >= f.nargs and f.ins[v].op in ('zext', 'sext', 'trunc', 'freeze'):
        v = f.ins[v].ops[0]
    return f.ins[v].raw['t'] if isinstance(v, int) and v >= f.nargs else None


def file_lengths(P, f, x):
    """expressions for the length of the object read at x"""
    o = f.e(x.ops[0])
    out = [('ld', ('fld', o, 'V8Object', 'len'))]
    for y in f.calls():
        if 'V8Object::get_len' in P.target_qs(y) and f.e(y.ops[0]) == o and f.dominates(y, x):
            out.append(f.e(y.id))
    return out


def buffer(P, rep, f, nm, y, LEN, own):
    """dst == buf + done, and done + n <= length"""
    r = Rel(f, unsigned=(LEN,))
    d = place(P, f.e(y.ops[0]))
    n = f.e(y.ops[2])
    sts = r.states(y)
    ok = bool(sts)
    # a counter with dst - buf == counter
    cand = [('phi', p.id) for p, i, b in loop_phis(f, loop_of(f, y))]
    done = None
    for c in cand:
        row = _row(r, f, [(f.e(y.ops[0]), 1), (('arg', 1), -1), (c, -1)])
        if r.implies(y, row):
            done = c
    if done is None and d and d[0] == ('arg', 1) and not d[1][0] and len(d[1][1]) == 1:
        done = next(iter(d[1][1]))
    rep.ob('buffer', nm + ' contiguous', done is not None, loc(y), 'the destination is not where the previous block ended')
    if done is None:
        return
    rep.ob('buffer', nm + ' bounded', r.le(y, done, LEN) and (n[0] == 'min' and lin_make(lin_add(lin_of(LEN), lin_of(done), -1)) in n[1:] or r.le(y, lin_make(lin_add(lin_of(done), lin_of(n), 1)), LEN)),
           loc(y), 'more than the announced length may be copied into the buffer')


def _row(r, f, items):
    out = {}
    for e, c in items:
        for t, v in r.lin_e(e).items():
            out[t] = out.get(t, 0) + c * v
    return {t: v for t, v in out.items() if v}

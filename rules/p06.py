"""P06 what is saved from a configuration repository is the requested version."""
from sa.lib import *
from sa.terms import Terms, column, col, simple, calls_of
from sa.paths import paths, typestate, states_at

ASSUMPTIONS = ['the CRC of boost (crc_32_type) is the CRC32 of the format',
               'the index PK of HISTORY and EXTERNALS lists the records of an object together and by version']


def run(P, rep):
    rep.rule('snapshot', 'a ready-made snapshot counts as the result only when the checksum of what was written equals the one recorded for the version', 1)
    rep.rule('crc', 'the checksum is that of the whole stream', 4)
    rep.rule('version', 'the version record used is the one with the requested number', 1)
    rep.rule('number', 'a relative version number counts back from the last version and never beyond the first', 2)
    rep.rule('format', 'the version of the repository is recognised from its own record, and an unknown one is refused', 4)
    rep.rule('columns', 'columns that only newer repositories have are asked for only there', 3)
    rep.rule('history', 'the state of an object is its newest record not newer than the requested version that carries data', 4)
    rep.rule('externals', 'the files of an object come from records not newer than the requested version, and only those its state has are saved', 3)
    rep.rule('missing', 'an object whose data cannot be found ends the export with an error', 3)
    rep.rule('packs', 'data count as found only when the whole hash is the requested one, and are read from the place recorded for it', 4)
    rep.rule('range', 'a partial export compares the newest record before the range with the newest inside it', 3)
    rep.rule('changed', 'an object is left out of a partial export only when its data are equal to the earlier ones', 2)
    rep.rule('data', 'what is saved for an object is the data of its own newest record', 2)
    snapshot(P, rep)
    crc(P, rep)
    number(P, rep)
    fmt(P, rep)
    full(P, rep, rep.need('T_1CD::save_depot_config'))
    part(P, rep, rep.need('T_1CD::save_part_depot_config'))
    packs(P, rep)


def ret_cases(f, choices=False):
    """(value expression, conditions under which it is returned, return); choices: the sides of a choice by themselves"""
    out = []
    for r in f.rets():
        if not r.ops:
            continue

        def go(v, bb, conds, seen):
            while isinstance(v, int) and v >= f.nargs and f.ins[v].op in ('zext', 'sext', 'trunc', 'freeze') and f.ins[v].raw['t'] != 'i1':
                v = f.ins[v].ops[0]
            x = f.ins.get(v) if isinstance(v, int) else None
            if x is not None and x.op == 'phi' and x.id not in seen:
                for pb, pv in x.raw['in']:
                    go(pv, pb, [truth(c, t) for c, t, _ in f.guards(pb)] + edge_conds(f, pb, x.bb), seen | {x.id})
            elif choices and x is not None and x.op == 'select':
                for o, t in ((x.ops[1], True), (x.ops[2], False)):
                    go(o, bb, conds + [truth(c, tt) for c, tt in f.decomp(x.ops[0], t)], seen)
            else:
                out.append((v, f.e(v), conds, r))
        go(r.ops[0], r.bb, [truth(c, t) for c, t, _ in f.guards(r.bb)], frozenset())
    return out


def snapshot(P, rep):
    f = rep.need('T_1CD::try_save_snapshot')
    T = Terms(f)
    crcs = [x for x in f.calls() if '_crc32' in P.target_qs(x)]

    def eq(c):
        c = T.e(c)
        if c[0] != 'cmp' or c[1] != 'eq':
            return False
        a, b = c[2:]
        for a, b in ((a, b), (b, a)):
            cb = column(b)
            if a[0] == 'call' and a[1] == '_crc32' and cb and cb[1] == 'SNAPSHOTCRC' and cb[0] == ('arg', 1):
                return True
        return False
    for v, e, conds, r in ret_cases(f):
        if e == ('c', 0):
            continue
        ok = eq(e) or (e == ('c', 1) and any(eq(c) for c in conds))
        rep.ob('snapshot', 'success of T_1CD::try_save_snapshot', ok, loc(r), 'success is reported although the checksum of the snapshot was not found equal to the recorded one')
    rep.ob('snapshot', 'checksum taken', bool(crcs), floc(f), 'no checksum is computed')
    for x in crcs:
        src = f.e(x.ops[0])
        # the stream is the one created at the requested path
        obj = src[1] if src[0] == 'ld' else src
        made = [y for y in f.calls() if method(y, 'reset') and f.e(y.ops[0]) == obj or y.raw.get('f') and 'shared_ptr' in (P.callee_name(y) or '') and f.e(y.ops[0]) == obj and len(y.ops) > 1]
        tgt = False
        for y in f.calls():
            if simple(P.callee_name(y) or '') == 'System::Classes::TFileStream::TFileStream' and any(m.ops[1:] and f.e(m.ops[1]) == f.e(y.ops[0]) for m in made):
                tgt = T.t(y.ops[1]) == ('arg', 5)
        rep.ob('snapshot', 'checksum of the saved file', tgt, loc(x), 'the checksum is not computed over the file that is saved')
        later = [y for y in f.calls() if f.may_follow(x, y) and y is not x and writes(P, f, y, src)]
        rep.ob('snapshot', 'nothing written after the checksum', not later, loc(later[0]) if later else loc(x), 'the file is written to after its checksum was computed')


def writes(P, f, y, src):
    if any(STREAM_WRITE.match(q) for q in P.target_qs(y)) and f.e(y.ops[0]) == src:
        return True
    return any(q in ('ZInflateStream', 'ZDeflateStream', 'ZInflateOrCopy') for q in P.target_qs(y)) and len(y.ops) > 1 and f.e(y.ops[1]) == src


def crc(P, rep):
    f = rep.need('_crc32')
    S = ('arg', 0)
    rd = [x for x in f.calls() if any(STREAM_READ.match(q) for q in P.target_qs(x))]
    pr = [x for x in f.calls() if method(x, 'process_bytes', 'process_block')]
    sk = lambda x: x.is_call and method(x, 'Seek') and f.e(x.ops[0]) == S and f.e(x.ops[1]) == ('c', 0) and f.e(x.ops[2]) == ('c', 0) or \
        x.is_call and method(x, 'SetPosition') and f.e(x.ops[1]) == ('c', 0)
    rep.ob('crc', 'from the start', rd and f.path_avoiding(None, lambda x: x in rd, sk) is None, floc(f), 'the checksum does not start at the beginning of the stream')
    poly = [x for x in pr if re.search(r'<32(ul)?, 79764919(u|ul)?, 4294967295(u|ul)?, 4294967295(u|ul)?, true, true>', P.dname(x.raw.get('f') or ''))]
    rep.ob('crc', 'polynomial', pr and len(poly) == len(pr), loc(pr[0]) if pr else floc(f), 'not the CRC-32 of the format')
    for x in rd:
        res = f.e(x.id)
        mine = [y for y in pr if f.e(y.ops[1]) == f.e(x.ops[1]) and f.e(y.ops[2]) == res]
        rep.ob('crc', 'all bytes read', bool(mine), loc(x), 'not exactly the bytes read are added to the checksum')
        p = f.path_avoiding(x, lambda y: y.op == 'ret' or y is x, lambda y: y in mine, skip=veto(f, lambda c: iszero(c, res) or is_cmp(c, 'sle slt', res, ('c', 0))))
        rep.ob('crc', 'every block', p is None, loc(x), 'bytes that were read are left out of the checksum: %s' % path_lines(p or []))
        p = f.path_avoiding(x, lambda y: y.op == 'ret', lambda y: y is x, skip=veto(f, lambda c: iszero(c, res) or is_cmp(c, 'sle slt', res, ('c', 0)) or is_cmp(c, 'slt ult', res, f.e(x.ops[2]))))
        rep.ob('crc', 'to the end', p is None, loc(x), 'reading stops before the end of the stream: %s' % path_lines(p or []))
    T = Terms(f)
    for v, e, conds, r in ret_cases(f):
        t = T.e(e)
        rep.ob('crc', 'result', t[0] == 'call' and t[1].split('::')[-1] == 'checksum' or e[0] == 'res' and method(f.ins[e[1]], 'checksum'), loc(r), 'the checksum is not what is returned')


def number(P, rep):
    f = rep.need('T_1CD::get_ver_depot_config')
    V = ('arg', 1)
    T = Terms(f)
    for v, e, conds, r in ret_cases(f):
        if e == V:
            rep.ob('number', 'absolute number', any(is_cmp(c, 'sgt', V, ('c', 0)) or is_cmp(c, 'slt', ('c', 0), V) or is_cmp(c, 'sge', V, ('c', 1)) or is_cmp(c, 'sle', ('c', 1), V) for c in conds), loc(r), 'a relative number is returned as it is')
    for x in f.calls():
        if 'Index::get_numrec' in P.target_qs(x):
            l = lin_of(f.e(x.ops[1]))
            cnt = [t for t in l[1] if t != V]
            ok = l[0] == -1 and l[1].get(V) == 1 and len(cnt) == 1 and l[1][cnt[0]] == 1
            ok = ok and T.e(cnt[0])[0] == 'call' and T.e(cnt[0])[1] == 'Index::get_numrecords' and T.e(cnt[0])[2] == T.t(x.ops[0])
            rep.ob('number', 'counts back from the last version', ok, loc(x), 'the record taken is number %s' % show(f.e(x.ops[1]), f))
            g = bool(cnt) and any(c[0] == 'cmp' and lin_ineq(c, cnt[0], V) for c in facts(x))
            rep.ob('number', 'not beyond the first version', g, loc(x), 'a number before the first version is not refused')
            tab = calls_of(T.t(x.ops[0]), 'get_index')
            rep.ob('number', 'index of the versions', bool(tab) and mentions_field(tab[0], 'T_1CD', 'table_versions'), loc(x), 'not the index of the versions')
    ok = any(column(('call', 'TableRecord::get_string') + tuple(t[2:])) for t in [T.e(('res', x.id)) for x in f.calls()] if t[0] == 'call' and t[1] == 'TableRecord::get_string')
    names = {column(T.t(x.ops[0]))[1] for x in f.calls() if (P.callee_name(x) or '').endswith('::stoi') and column(T.t(x.ops[0]))}
    rep.ob('number', 'number of the record found', names == {'VERNUM'}, floc(f), 'the number is read from %s' % sorted(names))


def lin_ineq(c, n, v):
    """n + v > 0, i.e. n > -v"""
    p, a, b = c[1:]
    l = lin_add(lin_of(a), lin_of(b), -1)
    if p in ('ugt', 'sgt'):
        pass
    elif p in ('ult', 'slt'):
        l = lin_scale(l, -1)
    elif p in ('uge', 'sge'):
        l = (l[0] + 1, l[1])
    elif p in ('ule', 'sle'):
        l = lin_scale(l, -1)
        l = (l[0] + 1, l[1])
    else:
        return False
    return l[0] == 0 and l[1] == {n: 1, v: 1}


def fmt(P, rep):
    f = rep.need('T_1CD::get_depot_version')
    T = Terms(f)
    ev = next((enum_values(P, n) for n in P.enums if n.split('::')[-1] == 'depot_ver'), None)
    want = {'Ver3': '0300000000000000', 'Ver5': '0500000000000000', 'Ver6': '0600000000000000', 'Ver7': '0700000000000000'}
    got = {}
    for v, e, conds, r in ret_cases(f):
        key = None
        for c in conds:
            t = T.e(c)
            if t[0] == 'call' and t[1].split('::')[-1] in ('EqualIC', 'Equal', 'operator==', 'iequals'):
                ss = [s[1] for s in t[2:] if s[0] == 's']
                if ss and any(column(s) and column(s)[1] == 'DEPOTVER' for s in t[2:]):
                    key = ss[0]
        got[e[1] if e[0] == 'c' else show(e, f)] = key
        rep.ob('format', 'version returned only for its own mark', e[0] == 'c' and key is not None, loc(r), 'the version is returned without a look at the record')
    for n, s in want.items():
        rep.ob('format', n, got.get(ev[n]) == s, floc(f), '%s is recognised by %s' % (n, got.get(ev[n])))


def at_least(c, lo):
    """the condition says that some value is >= lo"""
    if c[0] == 'cmp' and c[1] in ('uge', 'sge') and c[3][0] == 'c':
        return c[2] if c[3][1] >= lo else None
    if c[0] == 'cmp' and c[1] in ('ugt', 'sgt') and c[3][0] == 'c':
        return c[2] if c[3][1] >= lo - 1 else None
    if c[0] == 'cmp' and c[1] in ('ule', 'sle') and c[2][0] == 'c':
        return c[3] if c[2][1] >= lo else None
    if c[0] == 'cmp' and c[1] in ('ult', 'slt') and c[2][0] == 'c':
        return c[3] if c[2][1] >= lo - 1 else None
    return None


def columns(P, rep, f, T):
    ev = next((enum_values(P, n) for n in P.enums if n.split('::')[-1] == 'depot_ver'), None)
    need = {'DATAHASH': ev['Ver6'], 'CVERSION': ev['Ver5']}
    for x in f.calls():
        for o in x.ops[1:]:
            t = T.t(o) if not isinstance(o, dict) else T.e(f.e(o))
            if t[0] == 's' and t[1] in need and (P.callee_name(x) or '').split('::')[0] in ('Table', 'TableRecord'):
                ok = False
                for c in facts(x):
                    v = at_least(c, need[t[1]])
                    if v is not None and T.e(v)[0] == 'call' and T.e(v)[1] == 'T_1CD::get_depot_version':
                        ok = True
                rep.ob('columns', '%s in %s' % (t[1], f.q), ok, loc(x), 'the column is asked for in repositories that do not have it')


def le_ver(c, T, ver, rec=None):
    """condition VERNUM(record) <= ver: returns the record term"""
    if c[0] != 'cmp':
        return None
    c = T.e(c)
    if c[0] != 'cmp':
        return None
    p, a, b = c[1:]
    if p in ('sge', 'uge'):
        p, a, b = 'sle', b, a
    if p not in ('sle',):
        return None
    k = column(a)
    return k[0] if k and k[1] == 'VERNUM' and b == ver else None


def gt_ver(c, T, ver):
    c = T.e(c)
    if c[0] != 'cmp':
        return None
    p, a, b = c[1:]
    if p in ('slt', 'ult'):
        p, a, b = 'sgt', b, a
    k = column(a)
    return k[0] if p == 'sgt' and k and k[1] == 'VERNUM' and b == ver else None


def full(P, rep, f):
    T = Terms(f)
    columns(P, rep, f, T)
    # the requested number, normalised
    norm = [x for x in f.calls() if 'T_1CD::get_ver_depot_config' in P.target_qs(x)]
    ver = T.e(f.e(norm[0].id)) if norm else ('arg', 2)
    # ---- version record
    snap = [x for x in f.calls() if 'T_1CD::try_save_snapshot' in P.target_qs(x)]
    its = [x for x in f.calls() if (P.callee_name(x) or '') == 'TableIterator::TableIterator' and mentions_field(f.e(x.ops[1]), 'T_1CD', 'table_versions')]
    rep.ob('version', 'versions are searched', bool(its), floc(f), 'the table of versions is not searched')
    for it in its:
        a = f.e(it.ops[0])
        EOF = ('ld', ('fld', a, 'TableIterator', '_eof'))

        def step(x, st):
            if x.is_call and x.ops and (P.callee_name(x) or '').startswith('TableIterator::') and method(x, 'next') and f.e(x.ops[0]) == a:
                return ('no', '?')
            return st

        def edge(cs, st):
            m, e = st
            for c in cs:
                v = 1 if nonzero(c, EOF) else 0 if iszero(c, EOF) else None
                if v is not None:
                    if e != '?' and e != v:
                        return None
                    e = v
                t = T.e(c)
                if t[0] == 'cmp' and t[1] == 'eq' and ver in t[2:]:
                    o = t[2] if t[3] == ver else t[3]
                    k = column(o)
                    if k and k[1] == 'VERNUM' and calls_of(k[0], 'current'):
                        m = 'yes'
            return m, e
        inn = typestate(f, ('no', '?'), step, edge)
        for x in f.calls():
            if method(x, 'current') and (P.callee_name(x) or '').startswith('TableIterator::') and f.e(x.ops[-1]) == a:
                # uses other than the comparison itself
                if any(column(T.e(s)) and column(T.e(s))[1] == 'VERNUM' for s in [T.e(f.e(u.id)) for u in f.calls() if u.raw.get('sret') is None and False]):
                    continue
                used = [u for u in f.calls() if u is not x and any(f.e(o) == f.e(x.ops[0]) for o in u.ops if not isinstance(o, dict)) and not (P.callee_name(u) or '').split('::')[-1].startswith('~')]
                if used and all((P.callee_name(u) or '') == 'TableRecord::get_string' for u in used):
                    continue
                sts = states_at(f, inn, step, x)
                rep.ob('version', 'record used for %s' % sorted({(P.callee_name(u) or '?').split('::')[-1] for u in used}), all(m == 'yes' for m, e in sts), loc(x),
                       'the record of another version may be used')
    rep.ob('version', 'number', bool(norm) and all(f.e(x.ops[1]) == ('arg', 2) for x in norm), floc(f), 'the version number is not normalised')
    for x in snap:
        rep.ob('version', 'number given to the snapshot', T.t(x.ops[2]) == ver, loc(x), 'the snapshot of another version is taken')
        p = f.path_avoiding(x, lambda y: y.op == 'ret' and False or y.op == 'ret', lambda y: False, skip=veto(f, lambda c: iszero(c, f.e(x.id))))
        # success of the snapshot ends the export
        rep.ob('snapshot', 'success ends the export', p is not None and not any(f.path_avoiding(x, lambda y: method(y, 'write_and_close', 'remove'), lambda y: False, skip=veto(f, lambda c: iszero(c, f.e(x.id)))) or [False]), loc(x),
               'a good snapshot is overwritten')
    # ---- history
    st = [x for x in f.calls() if P.target_qs(x) & {'try_store_blob_data'}]
    hist = [x for x in st if col(T.t(x.ops[1])) == 'OBJDATA']
    exts = [x for x in st if col(T.t(x.ops[1])) == 'EXTDATA']
    rep.ob('history', 'objects are saved', bool(hist), floc(f), 'no object data are saved')
    for x in hist:
        rec = f.e(x.ops[0])
        flag = None
        for c in facts(x):
            if c[0] == 'not' and c[1][0] == 'phi':
                flag = c[1]
            if is_cmp(c, 'eq') and c[2][0] == 'phi' and c[3] == ('c', 0):
                flag = flag or c[2]
        if rec[0] != 'phi':
            rep.ob('history', 'state of an object', False, loc(x), 'the record saved is %s' % show(rec, f))
            continue
        history_loop(P, rep, f, T, x, rec, flag, ver)
    # ---- externals
    new = [x for x in f.calls() if (P.callee_name(x) or '') == 'TableRecord::TableRecord' and calls_of(T.t(x.ops[1]), 'current') and 'IndexedTableIterator' in str(T.t(x.ops[1]))]
    for x in new:
        fs = facts(x)
        rec = T.t(x.ops[1])
        rep.ob('externals', 'not newer than requested', any(le_ver(c, T, ver) == rec for c in fs), loc(x), 'a file of a newer version may be taken')
        rep.ob('externals', 'with data', any(column(T.e(c)) and column(T.e(c))[1] == 'DATAPACKED' for c in fs), loc(x), 'a record without data may be taken')
        rep.ob('externals', 'of the same object', any(same_obj(T.e(c)) for c in fs), loc(x), 'a file of another object may be taken')
    rep.ob('externals', 'records are collected', bool(new), floc(f), 'no files are collected')
    for x in exts:
        fs = [T.e(c) for c in facts(x)]
        guard = [c for c in fs if c[0] == 'call' and c[1] == 'contains_ic' and column(c[3]) and column(c[3])[1] == 'EXTNAME' and column(c[3])[0] == T.t(x.ops[0])]
        rep.ob('externals', 'only files the state has', bool(guard), loc(x), 'a file the object no longer has may be saved')
    push = [x for x in f.calls() if method(x, 'push_back') and column(T.t(x.ops[1])) and column(T.t(x.ops[1]))[1] == 'EXTNAME']
    for x in push:
        rec = column(T.t(x.ops[1]))[0]
        ok = False
        for c in facts(x):
            t = T.e(c)
            if t[0] == 'cmp' and t[1] == 'eq':
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if column(a) and column(a)[:2] == (rec, 'VERNUM') and b[0] == 'phi':
                        ok = True
        rep.ob('externals', 'names from the version of the state', ok, loc(x), 'the list of files is taken from another version')
    # ---- failures
    for x in st:
        bad = f.path_avoiding(x, lambda y: y.op == 'ret' or y is x or method(y, 'write_and_close'), lambda y: False, skip=veto(f, lambda c: nonzero(c, f.e(x.id)) or c == f.e(x.id)))
        rep.ob('missing', '%s in %s' % (col(T.t(x.ops[1])), f.q), bad is None, loc(x), 'the export goes on without the data of the object')


def same_obj(t):
    return t[0] == 'call' and t[1] == 'BinaryGuid::operator==' and any(column(s) and column(s)[1] == 'OBJID' for s in t[2:])


def history_loop(P, rep, f, T, x, rec, flag, ver):
    """what one turn of the loop does to (record, no-state flag, version of the state)"""
    scc = loop_of(f, x)
    hdr = [(p, i, b) for p, i, b in loop_phis(f, scc)]
    starts = []
    for y in f.calls():
        if y.bb in scc and (P.callee_name(y) or '') == 'System::ToIntDef':
            k = column(T.e(f.e(y.id)))
            if k and k[1] == 'VERNUM' and k[0][0] in ('phi', 'res', 'call') and 'IndexedTableIterator' not in str(k[0]):
                # the comparison with the requested version
                if any(le_ver(truth(f.e(b[-1].ops[0]), True), T, ver) or gt_ver(truth(f.e(b[-1].ops[0]), True), T, ver) for b in f.blocks if b[-1].op == 'br' and len(b[-1].raw['s']) == 2 and b[-1].bb in scc):
                    starts.append((y, k[0]))
    if not starts or flag is None:
        rep.ob('history', 'state of an object', False, loc(x), 'records are not compared with the requested version')
        return
    names = {'record': web(f, rec, hdr), 'flag': web(f, flag, hdr)}
    for y, r2 in starts:
        heads = {p.bb for p, i, b in hdr}
        res = paths(f, y, lambda z: z.bb in heads and z.pos == 0, within=scc)
        n = {'newer': 0, 'removed': 0, 'taken': 0, 'kept': 0}
        for p in res:
            conds = [T.e(c) for c in p.conds]
            vn = [c for c in p.conds]
            newer = any(gt_ver(c, T, ver) is not None for c in vn)
            older = any(le_ver(c, T, ver) is not None for c in vn)
            cl = {}
            for c in conds:
                neg_, t = (True, c[1]) if c[0] == 'not' else (False, c)
                k = column(t)
                if k and k[1] in ('REMOVED', 'DATAPACKED'):
                    cl[(k[1], k[2])] = not neg_
            rv = value_at(f, p, names['record'])
            fv = value_at(f, p, names['flag'])
            changed = rv is not None and T.e(rv) == r2 and r2 != rec
            setf = fv if fv is not None and fv[0] == 'c' else None
            if newer and not older:
                n['newer'] += 1
                rep.ob('history', 'newer records are ignored', not changed and setf is None, loc(y), 'a record newer than the requested version changes the state of the object')
            elif cl.get(('REMOVED', 'get')) is True:
                n['removed'] += 1
                rep.ob('history', 'removed objects are left out', setf == ('c', 1), loc(y), 'a removed object keeps its state')
            elif older and cl.get(('REMOVED', 'get')) is False and cl.get(('DATAPACKED', 'get')) is True:
                n['taken'] += 1
                rep.ob('history', 'the newest record with data is taken', changed and setf == ('c', 0), loc(y), 'a record with data does not become the state of the object')
            else:
                n['kept'] += 1
                rep.ob('history', 'records without data change nothing', not changed and setf is None, loc(y), 'a record without data or of an unknown version changes the state of the object')
        for k in ('removed', 'taken'):
            rep.ob('history', 'case %s' % k, n[k] > 0, loc(y), 'the case "%s" is not handled' % k)


def web(f, e, hdr):
    """the loop-header phi that carries the variable e (a phi) round the loop"""
    ids = {p.id for p, i, b in hdr}
    seen = set()
    st = [e[1]]
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return i
        x = f.ins.get(i)
        if x is not None and x.op == 'phi':
            for pb, v in x.raw['in']:
                if isinstance(v, int) and v >= f.nargs and f.ins[v].op == 'phi':
                    st.append(v)
    return None


def value_at(f, p, phi):
    """value the header phi receives at the end of the path"""
    if phi is None:
        return None
    prev = p.blocks[-2] if len(p.blocks) >= 2 else None
    v = p.env.get(phi)
    return v


def part(P, rep, f):
    T = Terms(f)
    columns(P, rep, f, T)
    norm = [x for x in f.calls() if 'T_1CD::get_ver_depot_config' in P.target_qs(x)]
    rb = [x for x in f.calls() if 'Table::readBlob' in P.target_qs(x)]

    def blob_rec(x):
        t = T.t(x.ops[2])
        for s in walk(t):
            k = column(s)
            if k:
                return k
        # a structure filled from the record
        a = f.e(x.ops[2])
        for s in walk(a):
            if s[0] == 'alloca':
                for d in T.defs.get(s[1], []):
                    k = column(T.call(d, skip=d.raw.get('sret', 0)))
                    if k:
                        return k
        return None
    # memcmp of the two images
    cm = [x for x in f.calls() if byte_compare(f, x)]
    sel = {}
    for x in rb:
        k = blob_rec(x)
        sel.setdefault((k[1] if k else '?'), []).append((x, f.e(x.ops[1]), k[0] if k else None))
    rep.ob('data', 'objects are read', bool(sel.get('OBJDATA')), floc(f), 'no object data are read')
    infl = [x for x in f.calls() if P.target_qs(x) & {'ZInflateStream'}]
    newrec = None
    hashes = [x for x in f.calls() if 'PackDirectory::get_data' in P.target_qs(x)]
    # the record whose data are saved: the one that the object's removal is read from
    rem = {column(T.e(('res', x.id)))[0] for x in f.calls() if column(T.e(('res', x.id))) and column(T.e(('res', x.id)))[1] == 'REMOVED'}
    newrec = next(iter(rem)) if len(rem) == 1 else None
    rep.ob('data', 'one record decides', newrec is not None, floc(f), 'several records decide about an object')
    ops = infl + [x for x in f.calls() if P.target_qs(x) & {'ZInflateOrCopy'}]
    flags = {f.e(o)[1] for y in hashes for o in y.ops if isinstance(o, int) and f.e(o)[0] == 'alloca' and scalar(f, f.e(o)[1])}
    saved = set()
    for x in ops:
        scc = loop_of(f, x)
        heads = {q.bb for q, i, b in loop_phis(f, scc)}
        for h in heads:
            seen = set()
            for p in paths(f, (h, None), lambda z: z is x, within=scc, limit=50000, mem=flags):
                e = p.val(x.ops[0])
                fills = tuple((y, r) for b in p.blocks for y in f.blocks[b] if y.is_call for l in sel.values() for y2, bf, r in l if y2 is y and bf == e)
                conds = frozenset(p.conds)
                key = (e, tuple(id(y) for y, r in fills[-1:]), has_flag(p, e))
                if key in seen:
                    continue
                seen.add(key)
                inst = 'source of %s' % '/'.join(sorted(P.target_qs(x)))
                t = T.e(e)
                got = e[0] == 'res' and method(f.ins[e[1]], 'get_data')
                if got:
                    k = next((column(s) for s in t[2:] if column(s)), None)
                    rep.ob('missing', inst, has_flag(p, e), loc(x), 'the export goes on although the data were not found')
                    if x in infl:
                        rep.ob('data', 'data by hash', bool(k) and k[0] == newrec and k[1] == 'DATAHASH', loc(x), 'data of another record are saved')
                else:
                    rep.ob('missing', inst, bool(fills), loc(x), 'what is saved may be left over from another object: %s' % path_lines([f.blocks[b][-1] for b in p.blocks]))
                    if x in infl:
                        saved.add(e)
                        for y, r in fills[-1:]:
                            rep.ob('data', 'image that is saved', r == newrec, loc(y), 'the data of another record are read into the image that is saved')
    for x, buf, r in sel.get('OBJDATA', []):
        if buf not in saved:
            rep.ob('data', 'image to compare with', r != newrec, loc(x), 'the new data are compared with themselves')
    # memcmp
    for x in cm:
        a, b, n = byte_compare(f, x)[:3]
        ka, kb = image_col(T, a), image_col(T, b)
        if ka and kb:
            rep.ob('changed', 'hashes of the two records', ka[1] == kb[1] == 'DATAHASH' and ka[0] != kb[0] and newrec in (ka[0], kb[0]), loc(x), 'other columns are compared')
            continue
        bufs = [bb for (y, bb, r) in sel.get('OBJDATA', [])]
        img = [next((bb for bb in bufs if bb in set(walk(e))), None) for e in (a, b)]
        rep.ob('changed', 'both images', None not in img and img[0] != img[1], loc(x), 'not the images of the two records are compared')
        szeq = any(c[0] == 'cmp' and c[1] == 'eq' and all(any(i in set(walk(s)) or T.e(i) in set(walk(T.e(s))) for s in c[2:]) for i in img if i) for c in facts(x))
        rep.ob('changed', 'same length', szeq, loc(x), 'images of different lengths may be compared')
        for i in img:
            rd = [y for y, bb, r in sel.get('OBJDATA', []) if bb == i]
            scc = loop_of(f, x)
            heads = {p.bb for p, _, _ in loop_phis(f, scc)}
            p = None
            for h in heads:
                p = p or f.path_avoiding(f.blocks[h][0], lambda z: z is x, lambda z: z in rd)
            rep.ob('changed', 'both images are read', p is None, loc(x), 'an image is compared without having been read for this object')
    # changed flag false only after a comparison found equality
    for x in infl:
        for c in facts(x):
            if c[0] == 'phi' and f.ins[c[1]].raw['t'] in ('i1', 'i8'):
                cases = [(f.e(v), [y for y in cm if any(byte_compare(f, y)[3](d) for d in list(cs) + [neg(f.e(v))])]) for v, cs in phi_cases(f, c[1])]
                for v, same in cases:
                    if v != ('c', 1) and any(s for _, s in cases):
                        rep.ob('changed', 'left out', bool(same), loc(x), 'an object is left out although its data were not found equal')
    # ---- the range
    vb = [f.e(x.id) for x in norm]
    rep.ob('range', 'both ends are normalised', len({e for e in (f.e(x.ops[1]) for x in norm)} & {('arg', 2), ('arg', 3)}) == 2, floc(f), 'an end of the range is not normalised')
    range_loop(P, rep, f, T, newrec)


def scalar(f, a):
    return any(u.op in ('store', 'load') and f.e(u.ops[-1]) == ('alloca', a) for u in f.all())


def has_flag(p, e):
    """on the path, the success of the call e was tested and found true"""
    x = p.f.ins.get(e[1]) if e[0] == 'res' else None
    if x is None:
        return False
    for c in p.conds:
        for s in walk(c):
            if s[0] == 'mem' and s[2] == x.id and nonzero(c, s) or s == e and nonzero(c, e):
                return True
    return False


def image_col(T, e):
    """(record, column) of a pointer into a record image"""
    t = T.e(e)
    k = column(t)
    if k:
        return k
    rec = cl = None
    for s in walk(e):
        if s[0] == 'fld' and s[2:] == ('TableRecord', 'data'):
            rec = T.e(s[1])
        if s[0] == 'fld' and s[2:] == ('Field', 'offset'):
            cl = col(T.e(s[1]))
    return (rec, cl, 'raw') if rec is not None and cl is not None else None


def phi_leaves(f, v):
    out, seen, st = [], set(), [v]
    while st:
        v = st.pop()
        if isinstance(v, int):
            if v in seen:
                continue
            seen.add(v)
            x = f.ins.get(v) if v >= f.nargs else None
            if x is not None and x.op == 'phi':
                st += [w for _, w in x.raw['in']]
                continue
        if isinstance(v, dict) and v.get('k') == 'undef':
            continue
        out.append(v)
    return [v for v in out if not (isinstance(v, dict) and f.e(v)[0] not in ('c', 'null'))]


def range_loop(P, rep, f, T, newrec):
    cands = []
    for y in f.calls():
        if (P.callee_name(y) or '') == 'System::ToIntDef':
            k = column(T.e(f.e(y.id)))
            if k and k[1] == 'VERNUM' and k[0][0] in ('phi', 'res', 'call') and newrec is not None and k[0] != newrec:
                cands.append((y, k[0]))
    done = False
    for y, r in cands:
        v = f.e(y.id)
        scc = loop_of(f, y)
        hdr = loop_phis(f, scc)
        heads = {p.bb for p, i, b in hdr}
        w2 = web(f, newrec, hdr) if newrec[0] == 'phi' else None
        if w2 is None:
            continue
        res = paths(f, y, lambda z: z.bb in heads and z.pos == 0, within=scc)
        upd = [p for p in res if p.env.get(w2) is not None and T.e(p.env[w2]) == r]
        if not upd:
            continue
        done = True
        others = [p.id for p, i, b in hdr if p.id != w2 and any(q.env.get(p.id) is not None and T.e(q.env[p.id]) == r and f.ins[p.id].raw['t'] == 'ptr' for q in res)]
        olds = [i for i in others if not all(T.e(q.env[i]) == r for q in res if q.env.get(i) is not None)]
        for p in res:
            lo = hi = None      # v < begin, v <= end
            for c in p.conds:
                if c[0] != 'cmp' or v not in c[2:]:
                    continue
                pr, a, b = c[1:]
                if a != v:
                    a, b = b, a
                    pr = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pr, pr)
                if pr in ('slt', 'sge'):
                    lo = (pr == 'slt', b)
                elif pr in ('sle', 'sgt'):
                    hi = (pr == 'sle', b)
            isnew = p.env.get(w2) is not None and T.e(p.env[w2]) == r
            isold = any(p.env.get(i) is not None and T.e(p.env[i]) == r for i in olds)
            if isnew:
                rep.ob('range', 'new state from inside the range', lo is not None and not lo[0] and hi is not None and hi[0] and lo[1] != hi[1], loc(y), 'a record from outside the range becomes the new state')
                rep.ob('range', 'ends in order', lo is not None and hi is not None and ends(f, T, lo[1], hi[1]), loc(y), 'the range is not the requested one')
            elif isold:
                rep.ob('range', 'old state from before the range', lo is not None and lo[0], loc(y), 'a record from inside the range becomes the old state')
            else:
                rep.ob('range', 'ignored only behind the range', hi is not None and not hi[0], loc(y), 'a record up to the end of the range is ignored')
    rep.ob('range', 'records are classified', done, floc(f), 'records are not compared with the range')


def ends(f, T, lo, hi):
    """lo is the smaller, hi the larger of the two normalised numbers"""
    def nums(e):
        out = set()
        for v in ([e[1]] if e[0] in ('phi', 'res') else []):
            for w in phi_leaves(f, v):
                t = T.e(f.e(w))
                out.add(t)
        if e[0] in ('min', 'max'):
            out = {T.e(s) for s in e[1:]}
        return out
    a, b = nums(lo), nums(hi)
    ok = a == b and len(a) == 2 and all(t[0] == 'call' and t[1] == 'T_1CD::get_ver_depot_config' for t in a)
    if not ok:
        return False
    if lo[0] == 'min' and hi[0] == 'max':
        return True
    if lo[0] == 'phi' and hi[0] == 'phi' and f.ins[lo[1]].bb == f.ins[hi[1]].bb:
        x, y = f.ins[lo[1]], f.ins[hi[1]]
        for pb, v in x.raw['in']:
            w = dict((q, u) for q, u in y.raw['in'])[pb]
            cs = [truth(c, t) for c, t, _ in f.guards(pb)] + edge_conds(f, pb, x.bb)
            if not any(c[0] == 'cmp' and ((c[1] in ('slt', 'sle') and c[2] == f.e(v) and c[3] == f.e(w)) or (c[1] in ('sgt', 'sge') and c[3] == f.e(v) and c[2] == f.e(w))) for c in cs):
                return False
        return True
    return False


def exact(e):
    return e[0] == 'ld' and e[1][0] == 'fld' and e[1][2:] == ('record_data_hash', 'offset')


def phi_cases(f, v, conds=(), seen=frozenset()):
    """(leaf operand, conditions of the edges on the way)"""
    x = f.ins.get(v) if isinstance(v, int) and v >= f.nargs else None
    while x is not None and x.op in ('zext', 'trunc', 'freeze') and isinstance(x.ops[0], int) and x.ops[0] >= f.nargs:
        x = f.ins[x.ops[0]]
        v = x.id
    if x is not None and x.op == 'phi' and x.id not in seen:
        for pb, pv in x.raw['in']:
            cs = tuple(truth(c, t) for c, t, _ in f.guards(pb)) + tuple(edge_conds(f, pb, x.bb))
            yield from phi_cases(f, pv, conds + cs, seen | {x.id})
    else:
        yield v, conds


def packs(P, rep):
    f = rep.need('Packdata::get_data')
    n = P.records['record_data_hash']['f']
    hl = next(x['z'] for x in n if x['n'] == 'datahash')
    flag = ('arg', 2)
    sets = [x for x in f.all() if x.op == 'store' and f.e(x.ops[1]) == flag and f.e(x.ops[0]) != ('c', 0)]
    rets = [x for x in f.calls() if method(x, 'CopyFrom')]

    def equal(c):
        for y in f.calls():
            bc = byte_compare(f, y)
            if bc and bc[3](c):
                a, b, k = bc[:3]
                return k == ('c', hl) and ('arg', 1) in (a, b) and any(z != ('arg', 1) and (z[0] == 'fld' and z[2:] == ('record_data_hash', 'datahash') or z[0] in ('ld', 'res', 'phi')) for z in (a, b))
        return False
    for x in sets:
        rep.ob('packs', 'found', any(equal(c) for c in facts(x)), loc(x), 'data count as found although the hash is another')
    rep.ob('packs', 'found is reported', bool(sets), floc(f), 'nothing is ever found')
    p = f.path_avoiding(None, lambda y: y.op == 'ret', lambda y: y.op == 'store' and f.e(y.ops[1]) == flag)
    rep.ob('packs', 'result is set', p is None, floc(f), 'the result may be left unset')
    for x in rets:
        sk = [y for y in f.calls() if method(y, 'Seek', 'SetPosition') and y.ops and any('offset' in str(s) or s[0] == 'fld' for s in walk(f.e(y.ops[1])))]
        ok = [y for y in sk if exact(f.e(y.ops[1])) and f.dominates(y, x)]
        rep.ob('packs', 'place of the data', bool(ok), loc(x), 'the data are not read from the place recorded for the hash')
        for y in f.calls():
            if method(y, 'CopyFrom') and f.dominates(y, x) and y is not x:
                rep.ob('packs', 'one copy', False, loc(y), 'the data are copied twice')
    g = rep.need('PackDirectory::get_data')
    flag = ('arg', 2)
    inner = [x for x in g.calls() if 'Packdata::get_data' in P.target_qs(x)]
    for x in inner:
        conv = [y for y in g.calls() if 'binary_datahash' in P.target_qs(y) and g.e(y.ops[1]) == g.e(x.ops[1]) and g.dominates(y, x)]
        rep.ob('packs', 'hash looked for', any(g.e(y.ops[0]) == ('arg', 1) for y in conv), loc(x), 'another hash is looked for')
        used = [y for y in g.calls() if simple(P.callee_name(y) or '').endswith('TFileStream::TFileStream')]
        for y in used:
            rep.ob('packs', 'loose file', any(s == ('arg', 1) for z in g.calls() if 'object_path' in P.target_qs(z) for s in (g.e(o) for o in z.ops)), loc(y), 'the file opened is not named by the hash')
    rep.ob('packs', 'packs are searched', bool(inner), floc(g), 'the packs are not searched')

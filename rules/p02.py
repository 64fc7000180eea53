"""P02 a modification that reports completion is in the file."""
from sa.lib import *
from sa.absint import AI, stdcalls

ASSUMPTIONS = [
    'a page that is written with TStream::WriteBuffer is durable for the purposes of this property (the stream flushes after every write; no fsync is claimed)',
    'exceptions leave the operation without completing it; only normal returns are obligations',
]
OPS = ['T_1CD::create_table', 'T_1CD::delete_table', 'T_1CD::find_and_create_lost_tables', 'T_1CD::restore_DATA_allocation_table',
       'Table::import_table', 'Table::end_edit']
FLUSH = 'MemBlockManager::flush'
GBW = 'T_1CD::get_block_for_write'


def empty_pointer(P, f, c):
    """the condition says that a shared pointer points to nothing"""
    t, c = (False, c[1]) if c[0] == 'not' else (True, c)
    if c[0] == 'cmp' and c[1] in ('eq', 'ne') and ('c', 0) in c[2:]:
        t, c = t == (c[1] == 'ne'), next(s for s in c[2:] if s != ('c', 0))
    if c[0] != 'res' or not f.ins[c[1]].is_call:
        return False
    q = P.callee_name(f.ins[c[1]]) or ''
    rest = [f.e(o) for o in f.ins[c[1]].ops[1:]]
    return bool(re.match(r'std::operator(==|!=)(<|$)', q)) and all(e in (('null',), ('c', 0)) for e in rest) and t == ('operator==' in q) or q.endswith('::operator bool') and not t


def run(P, rep):
    rep.rule('mark', 'a page handed out for writing is marked changed', 1)
    rep.rule('write', 'writing back a changed page always writes its whole contents at its own place, and only then clears the mark', 3)
    rep.rule('flush', 'writing back covers every cached page', 1)
    rep.rule('evict', 'a page leaves the cache only when it is unchanged or the base is being closed or opened', 2)
    rep.rule('commit', 'every operation that modifies the base writes the changed pages back before it returns', 6)
    rep.rule('through', 'the flush of the base reaches the flush of the page cache on every path', 1)
    rep.rule('readpage', 'nothing is stored through a page that was fetched for reading', 3)
    chk = ('fld', ('arg', 0), 'MemBlock', 'changed')
    # mark
    gb = rep.need('MemBlock::get_block', lambda f: f.nargs == 2)
    outs = {dict(m).get(chk) for k, v, m in AI(P, call=stdcalls).run(gb, {1: 1}, {chk: 0}) if k == 'ret'}
    rep.ob('mark', 'MemBlock::get_block(for_write)', outs == {1}, floc(gb), 'the page can be handed out for writing with changed = %s' % outs)
    mg = rep.need('MemBlockManager::get_block_for_write')
    rets = mg.rets()
    for x in mg.calls():
        if 'MemBlock::get_block' in P.target_qs(x) and len(x.ops) == 2:
            rep.ob('mark', 'MemBlockManager::get_block_for_write', mg.e(x.ops[1]) == ('c', 1), loc(x), 'the page is fetched without being marked changed')
    # what it returns comes from there (or is null)
    for r in rets:
        vals = phi_values(mg, r.ops[0]) if r.ops else []
        for v in vals:
            e = mg.e(v)
            ok = e == ('null',) or e == ('c', 0)
            if e[0] == 'res':
                ok = 'MemBlock::get_block' in P.target_qs(mg.ins[e[1]]) and len(mg.ins[e[1]].ops) == 2
            rep.ob('mark', 'value returned by MemBlockManager::get_block_for_write', ok, loc(r), 'a page that was not marked changed is returned: %s' % show(e, mg))
    # write
    w = rep.need('MemBlock::write')
    W, S = ('ev', 'written'), ('ev', 'seek')
    bad = []

    def call(ai, fn, x, argv, m, env):
        ts = P.target_qs(x)
        if ts & {'MemBlock::is_changed'}:
            v = m.get(chk)
            return (v,) if v is not None else None
        if any(STREAM_SEEK.match(q) for q in ts):
            m[S] = 1 if place_ok(fn, x) else 2
            return (None,)
        if any(STREAM_WRITE.match(q) for q in ts):
            m[W] = 1
            if m.get(S) != 1:
                bad.append((x, 'written at another place'))
            if m.get(chk) != 1:
                bad.append((x, 'the mark is cleared before the page is written'))
            return (None,)
        return stdcalls(ai, fn, x, argv, m, env)

    def place_ok(fn, x):
        e = fn.e(x.ops[1])
        return e[0] == 'op' and e[1] == 'mul' and any(is_field_load(s, 'MemBlock', 'block_num') for s in e[2:]) and \
            any(s == ('size', ('fld', ('arg', 0), 'MemBlock', 'data')) or is_field_load(s, 'MemBlock', 'page_size') for s in e[2:])
    ex = [(k, dict(m)) for k, v, m in AI(P, call=call).run(w, {}, {chk: 1})]
    rets = [m for k, m in ex if k == 'ret']
    rep.ob('write', 'a changed page is written', rets and all(m.get(W) == 1 for m in rets), floc(w), 'a changed page may be left unwritten')
    rep.ob('write', 'place and order', not bad, loc(bad[0][0]) if bad else floc(w), bad[0][1] if bad else '')
    for x in w.calls():
        if any(STREAM_WRITE.match(q) for q in P.target_qs(x)):
            a, n = w.e(x.ops[1]), w.e(x.ops[2])
            d = ('fld', ('arg', 0), 'MemBlock', 'data')
            rep.ob('write', 'whole page', a == ('data', d) and n == ('size', d), loc(x), 'not the whole page is written: %s bytes' % show(n, w))
    cleared = [x for x in stores(P, 'MemBlock', 'changed') if x.fn.e(x.ops[0]) != ('c', 1)]
    for x in cleared:
        f = rep.saw(x.fn)
        if f.q.startswith('MemBlock::MemBlock'):
            continue
        if f.q == 'MemBlock::get_block':      # changed = changed || for_write
            continue
        ok = f.q == 'MemBlock::write' and f.path_avoiding(None, lambda y: y is x, lambda y: y.is_call and any(STREAM_WRITE.match(q) for q in P.target_qs(y))) is None
        rep.ob('write', 'mark cleared in ' + f.q, ok, loc(x), 'the changed mark is cleared without the page having been written')
    # flush loop
    fl = rep.need(FLUSH)
    ws = [x for x in fl.calls() if 'MemBlock::write' in P.target_qs(x)]
    rep.ob('flush', 'pages are written', bool(ws), floc(fl), 'no page is written')
    for x in ws:
        rep.ob('flush', 'in a loop over the cache', fl.in_loop(x), loc(x), 'only one page is written')
        extra = [c for c in facts(x) if not loop_or_null(P, fl, c)]
        rep.ob('flush', 'unconditionally', not extra, loc(x), 'pages are skipped when not %s' % [show(c, fl) for c in extra])
        lp = loop_of(fl, x)
        br = cut_short(fl, lp)
        rep.ob('flush', 'to the end of the cache', not br, loc(br[0]) if br else loc(x), 'the loop over the pages is left early')
        sk = skips(fl, lp)
        rep.ob('flush', 'from the beginning, one by one', not sk, loc(sk[0][0]) if sk else loc(x), sk[0][1] if sk else '')
    always_flush = P.always(lambda x: x.is_call and FLUSH in P.target_qs(x))
    tf = rep.need('T_1CD::flush')
    rep.ob('through', 'T_1CD::flush', tf.name in always_flush, floc(tf), 'returns without writing the changed pages back')
    # eviction
    for f in P.functions.values():
        for x in f.calls():
            q = P.callee_name(x) or ''
            if re.match(r'^std::vector<std::shared_ptr<MemBlock>.*>::(clear|resize|erase|pop_back|assign|operator=|swap)$', q):
                rep.saw(f)
                ok = f.q in ('MemBlockManager::delete_memblocks', 'MemBlockManager::create_memblocks', 'MemBlockManager::operator=')
                rep.ob('evict', '%s in %s' % (q.split('::')[-1], f.q), ok, loc(x), 'pages are dropped from the cache')
            if re.match(r'^std::(__)?shared_ptr<MemBlock.*>::(reset|operator=|swap)$', q) and f.q.startswith('MemBlockManager::'):
                rep.saw(f)
                if f.q == 'MemBlockManager::MemBlockManager':
                    continue
                nulltest = has_fact(x, lambda c: c[0] == 'cmp' and c[1] == 'eq' and ('null',) in c[2:] or empty_pointer(P, f, c))
                unch = has_fact(x, false_field('MemBlock', 'changed')) or has_fact(x, lambda c: c[0] == 'not' and c[1][0] == 'res' and 'MemBlock::is_changed' in P.target_qs(f.ins[c[1][1]]))
                filled = f.q in ('MemBlockManager::get_block', 'MemBlockManager::get_block_for_write') and nulltest
                rep.ob('evict', '%s in %s' % (q.split('::')[-1], f.q), unch or filled, loc(x), 'a page that may have been changed is dropped from the cache')
    for q, ok_callers in (('MemBlockManager::delete_memblocks', {'T_1CD::~T_1CD'}), ('MemBlockManager::create_memblocks', {'T_1CD::open'})):
        for x in P.calls_to(q):
            rep.ob('evict', '%s called in %s' % (q, x.fn.q), x.fn.q in ok_callers, loc(x), 'the cache is emptied while the base is in use')
    # commit
    dirty = dirty_exit(P, always_flush)
    for q in OPS:
        for f in P.fns(q):
            rep.saw(f)
            p = dirty.get(f.name)
            rep.ob('commit', q, p is None, loc(p[-1]) if p else floc(f), 'returns with modified pages that were not written back: ' + path_lines(p or []))
    for f in P.functions.values():
        if f.q.startswith('App::'):
            p = dirty.get(f.name)
            if f.name in P.may(lambda x: x.is_call and GBW in P.target_qs(x)) if False else p is not None:
                rep.ob('commit', f.q, False, loc(p[-1]), 'the command returns with modified pages that were not written back: ' + path_lines(p))
    # readpage
    rd = {'T_1CD::get_block', 'MemBlockManager::get_block', 'V8Object::get_block'}
    n = 0
    for f in P.functions.values():
        src = [x for x in f.calls() if P.target_qs(x) & rd and x.raw['t'] == 'ptr']
        if not src:
            continue
        rep.saw(f)
        ids = {x.id for x in src}
        for x in src:
            rep.ob('readpage', 'page fetched in ' + f.q, True, loc(x))
        for x in f.all():
            d = None
            if x.op == 'store':
                d = x.ops[1]
            elif x.is_call and (P.callee_name(x) or '').startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                d = x.ops[0]
            if d is None or not isinstance(d, int):
                continue
            e = f.e(d)
            b = base_of(e)
            if b[0] == 'res' and b[1] in ids:
                rep.ob('readpage', 'page fetched in ' + f.q, False, loc(x), 'the page fetched for reading is modified here, which the cache does not write back')


def base_of(e):
    while e[0] in ('fld', 'elt'):
        e = e[1]
    return e


def phi_values(f, v, seen=None):
    seen = seen if seen is not None else set()
    if isinstance(v, dict) or v < f.nargs:
        return [v]
    if v in seen:
        return []
    seen.add(v)
    x = f.ins[v]
    if x.op == 'phi':
        out = []
        for _, w in x.raw['in']:
            out += phi_values(f, w, seen)
        return out
    if x.op == 'select':
        return phi_values(f, x.ops[1], seen) + phi_values(f, x.ops[2], seen)
    return [v]


def iterish(P, f, e):
    """an expression that steps through a container"""
    for s in walk(e):
        if s[0] in ('res',):
            q = P.callee_name(f.ins[s[1]]) if f.ins[s[1]].is_call else None
            if q and re.search(r'(__normal_iterator|operator(!=|==|<)|_Node_iterator|::(begin|end)$)', q):
                return True
        if s[0] in ('size', 'phi'):
            return True
    return False


def loop_or_null(P, f, c):
    if c[0] == 'cmp' and ('null',) in c[2:]:
        return c[1] == 'ne'
    c2 = c[1] if c[0] == 'not' else c
    if c2[0] == 'res':
        x = f.ins[c2[1]]
        q = (P.callee_name(x) or '') if x.is_call else ''
        if 'MemBlock::is_changed' in P.target_qs(x):
            return c[0] != 'not'
        if re.search(r'(operator==|operator!=|operator bool)$', q):
            if q.startswith('__gnu_cxx') or 'iterator' in q:
                return True
            return (c[0] == 'not') == q.endswith('operator==')
        return False
    if true_field('MemBlock', 'changed')(c):
        return True
    return iterish(P, f, c)


def dirty_exit(P, always_flush):
    """functions that may return normally with modified pages not written back -> a path"""
    dirty = {}
    fl = lambda x: x.is_call and (FLUSH in P.target_qs(x) or P.does(x, always_flush))
    ch = True
    while ch:
        ch = False
        for f in P.functions.values():
            if f.name in dirty or f.q in (GBW,):
                continue
            for x in f.calls():
                ts = P.targets(x)
                if (any(P.qname(t) == GBW for t in ts) or any(t in dirty for t in ts)):
                    p = f.path_avoiding(x, lambda y: y.op == 'ret', fl)
                    if p is not None:
                        dirty[f.name] = [x] + p
                        ch = True
                        break
    return dirty

"""P13 compression loses nothing and broken data is noticed."""
from sa.lib import *
from sa.build import Broken
from sa.absint import AI
from rules.p06 import phi_cases

ASSUMPTIONS = ['zlib behaves as documented', 'a Read that returns less than asked for has met the end of the source',
               'a Write that returns normally has written what it reports']
OK, END, NEED_DICT, ERRNO, STREAM, DATA, MEM, BUF = 0, 1, 2, -1, -2, -3, -4, -5
MASK = (1 << 32) - 1
RAW = re.compile(r'(^|::)(in|de)flate$')
INIT = re.compile(r'^(in|de)flateInit2?_$')
WRITES = ('Write', 'WriteBuffer', 'WriteString')
Z = ('ZInflateStream', 'ZDeflateStream', 'ZInflateOrCopy')


def run(P, rep):
    rep.rule('format', 'both directions use the raw format with the largest window', 2)
    rep.rule('deflate', 'compressing takes the whole source, writes all that is produced, and finishes the stream', 4)
    rep.rule('inflate', 'decompressing writes all that is produced until the end of the stream', 4)
    rep.rule('broken', 'broken, incomplete or dictionary-needing data raises an error', 4)
    rep.rule('buffers', 'what is given to the library is what was read, what is written is what it produced', 4)
    rep.rule('fallback', 'where data may be uncompressed, the original is taken instead of a partial result', 5)
    rep.rule('positioned', 'data just written is decompressed or compressed from its beginning', 3)
    users = {'deflate': [], 'inflate': []}
    for f in P.functions.values():
        for x in f.calls():
            q = P.callee_name(x)
            if q in users and f not in users[q]:
                users[q].append(f)
    if not users['deflate'] or not users['inflate']:
        raise Broken('no use of the compression library found')
    for kind in users:
        for f in users[kind]:
            if not any(INIT.search(P.callee_name(x) or '') for x in f.calls()):
                # a wrapper around one call of the library: its callers are judged through it only if it is inlined
                continue
            rep.saw(f)
            formats(P, rep, f, kind)
            buffers(P, rep, f, kind)
            model(P, rep, f, kind)
    fallback(P, rep)
    positioned(P, rep)


def formats(P, rep, f, kind):
    for x in f.calls():
        q = P.callee_name(x)
        if q and q.startswith(kind + 'Init'):
            a = [f.e(o) for o in x.ops]
            bits = a[3 if kind == 'deflate' else 1] if '2' in q else None
            bits = bits[1] if bits and bits[0] == 'c' else None
            if bits is not None and bits > MASK // 2:
                bits -= 1 << 32
            rep.ob('format', f.q, bits == -15, loc(x), '%s is set up with window bits %s, not -15 (raw data)' % (kind, bits))
            if kind == 'deflate':
                rep.ob('format', f.q + ' method', len(a) > 2 and a[2] == ('c', 8), loc(x), 'the method of compression is not deflate')


def cell(m, name):
    for k in m:
        if isinstance(k, tuple) and k[0] == 'fld' and k[-1] == name and k[-2].startswith('z_stream'):
            return k
    return None


def stream_cell(fn, x, name):
    return ('fld', fn.e(x.ops[0]), 'z_stream_s', name)


def model(P, rep, f, kind):
    """the function against every behaviour of the library: all outcomes of a call, all lengths of the source"""
    bad = {}
    full = {'size': None}

    def fail(rule, what, x, msg):
        bad.setdefault((rule, what), (loc(x) if x is not None else floc(f), msg))

    def hook(ai, fn, x, argv, m, env):
        q = P.callee_name(x) or ''
        ms = {t.split('::')[-1] for t in P.target_qs(x)} or {q.split('::')[-1]}
        if INIT.search(q):
            return [('alt', 0, {'init': 1}), ('alt', MEM & MASK, {'init': 0, 'err': 1})] if kind == 'deflate' else [('alt', 0, {'init': 1})]
        if q in ('deflateEnd', 'inflateEnd'):
            return (0,)
        if q.split('::')[-1] == 'operator new[]':
            return (('buf', x.id),)
        if 'unique_ptr' in q or q.endswith('::get') or q.endswith('::data'):
            return None
        if 'Read' in ms:
            if m.get('ai', 0):
                fail(kind, 'input', x, 'more is read before the library has taken all of what was read')
            if m.get('err'):
                fail('broken', 'stop', x, 'the work goes on after an error')
            n = argv[2] if len(argv) > 2 else None
            if not isinstance(n, int):
                return None
            if m.get('eof'):
                return [('alt', 0, {'fresh': 0, 'some': m.get('some')})]
            return [('alt', 0, {'eof': 1, 'fresh': 0}), ('alt', max(n // 3, 1), {'eof': 1, 'fresh': max(n // 3, 1), 'some': 1}),
                    ('alt', n, {'fresh': n, 'some': 1})]
        if q in ('deflate', 'inflate'):
            kao, kai = stream_cell(fn, x, 'avail_out'), stream_cell(fn, x, 'avail_in')
            kao = kao if kao in m else cell(m, 'avail_out')
            kai = kai if kai in m else cell(m, 'avail_in')
            size, ai = m.get(kao), m.get(kai)
            if m.get('unw'):
                fail(kind, 'written', x, 'what the library has produced is not written before it is called again')
            if m.get('err'):
                fail('broken', 'stop', x, 'the library is called again after an error')
            if not isinstance(size, int) or not size:
                fail(kind, 'room', x, 'the library is called without room for its output')
                return 'dead'
            have = m.get('fresh', 0)
            if m.get('fresh') is not None and ai != have:
                fail(kind, 'input', x, 'the library is told of %s bytes of input, %s were read' % (ai, have))
                return 'dead'
            flush = argv[1]
            pend = m.get('pend', 0)

            def out(v, ao, left, pend, **kw):
                d = {kao: ao, kai: left, 'fresh': None, 'ai': left, 'unw': size - ao, 'size': size, 'pend': pend, 'got': 1, 'err': 0}
                d.update(kw)
                return ('alt', v & MASK, d)
            part = size - max(size // 3, 1)
            if m.get('end'):
                return [out(END, size, ai, 0)]
            if kind == 'deflate':
                if flush not in (0, 4):
                    fail(kind, 'flush', x, 'the stream is neither continued nor finished')
                    return 'dead'
                if m.get('finishing') and flush == 0:
                    fail(kind, 'flush', x, 'the stream is continued after its finish was asked for')
                    return 'dead'
                if flush == 4:
                    if not m.get('eof'):
                        fail(kind, 'source', x, 'the stream is finished though the source may have more data')
                    return [out(OK, 0, 0, 1, finishing=1), out(OK, 0, min(ai, 1), 1, finishing=1),
                            out(END, 0, 0, 0, end=1), out(END, part, 0, 0, end=1)]
                if not ai and not pend:
                    return [out(BUF, size, 0, 0)]
                r = [out(OK, part, 0, 0), out(OK, size, 0, 0), out(OK, 0, 0, 1), out(OK, 0, 0, 0)]
                if ai > 1:
                    r.append(out(OK, 0, 1, 1))
                return r
            if not ai and not pend:
                return [out(BUF, size, 0, 0)]
            r = [out(OK, part, 0, 0), out(OK, size, 0, 0), out(OK, 0, 0, 1), out(OK, 0, 0, 0),
                 out(END, part, 0, 0, end=1), out(END, 0, 0, 0, end=1), out(END, size, 0, 0, end=1), out(END, part, min(ai, 1), 0, end=1)]
            if ai > 1:
                r.append(out(OK, 0, 1, 1))
            for code in (STREAM, DATA, MEM, NEED_DICT):
                r.append(out(code, part, min(ai, 1), 0, err=code & MASK))
            return r
        if ms & set(WRITES) and len(argv) > 2:
            if m.get('err') and m.get('init'):
                fail('broken', 'stop', x, 'output is written after an error')
            n, w = argv[2], m.get('unw', 0)
            if n != w:
                fail(kind, 'written', x, '%s bytes are written, the library has produced %s' % (n, w))
            m['unw'] = 0
            if 'Write' in ms and kind == 'deflate':
                r = [('alt', n, {})]
                if isinstance(n, int) and n > 0:
                    r.append(('alt', n - 1, {'err': 1}))
                return r
            return (n,)
        return None

    ai = AI(P, call=hook, limit=400000)
    ai.widen = 100000
    ai.cap = 1 << 19
    exits = ai.run(f)
    good = 0
    void = f.raw['ret'] in ('void', None)
    for k, v, mem in exits:
        m = dict(mem)
        ok_exit = k == 'ret' and (void or v != 0)
        err = m.get('err')
        if ok_exit:
            if err and m.get('init'):
                fail('broken', 'error %s' % name(err), None, 'the function returns normally although the library reported %s' % name(err))
                continue
            if not m.get('init'):
                fail('broken', 'init', None, 'the function returns normally although the library could not be set up')
                continue
            if m.get('unw'):
                fail(kind, 'written', None, 'the function returns without writing the last output')
            if kind == 'deflate':
                if not m.get('eof'):
                    fail(kind, 'source', None, 'the function returns before the end of the source')
                if not m.get('end'):
                    fail(kind, 'end', None, 'the function returns before the stream is finished')
            elif m.get('some') and not m.get('end'):
                fail('broken', 'incomplete', None, 'the function returns normally although the stream is incomplete')
            elif not m.get('some') and not m.get('eof'):
                fail(kind, 'source', None, 'the function returns without reading the source')
            good += bool(m.get('end'))
        else:
            if not err and m.get('end') and not (k == 'exc' and m.get('unw')):
                fail(kind, 'end', None, 'the function fails although the stream is complete')
            elif not err and m.get('pend') and m.get('eof'):
                fail(kind, 'input', None, 'the function fails although the library has output left')
            elif kind == 'deflate' and not err and k == 'ret':
                fail(kind, 'end', None, 'the function fails although nothing went wrong')
    if not good:
        fail(kind, 'end', None, 'the function never completes')
    for what, msg in (('input', 'input'), ('room', 'room'), ('written', 'output'), ('source', 'source'), ('end', 'end')):
        b = bad.get((kind, what))
        rep.ob(kind, '%s: %s' % (f.q, what), b is None, b[0] if b else floc(f), b[1] if b else '')
    if kind == 'deflate':
        b = bad.get((kind, 'flush'))
        rep.ob(kind, '%s: flush' % f.q, b is None, b[0] if b else floc(f), b[1] if b else '')
        b = bad.get(('broken', 'init'))
        rep.ob('broken', '%s: set-up' % f.q, b is None, b[0] if b else floc(f), b[1] if b else '')
    else:
        for code in ('incomplete', 'error ' + name(STREAM), 'error ' + name(DATA), 'error ' + name(MEM), 'error ' + name(NEED_DICT)):
            b = bad.get(('broken', code))
            rep.ob('broken', '%s: %s' % (f.q, code), b is None, b[0] if b else floc(f), b[1] if b else '')
    b = bad.get(('broken', 'stop'))
    rep.ob('broken', '%s: %s stops at an error' % (f.q, kind), b is None, b[0] if b else floc(f), b[1] if b else '')


def name(code):
    if code > MASK // 2:
        code -= 1 << 32
    return {STREAM: 'a stream error', DATA: 'a data error', MEM: 'lack of memory', NEED_DICT: 'the need of a dictionary', 1: 'an incomplete write'}.get(code, str(code))


def area(P, f, e):
    """(memory, its size): the local array or allocated block an expression points to"""
    while e and e[0] in ('dec', 'elt', 'bc', 'ptr') and len(e) > 1 and isinstance(e[1], tuple):
        if e[0] == 'elt' and e[-1] not in (0, ('c', 0)):
            return e, None
        e = e[1]
    if e and e[0] == 'al':
        return e, None
    return e, None


def buffers(P, rep, f, kind):
    nxt = {'next_in': [], 'next_out': []}
    cnt = {'avail_in': [], 'avail_out': []}
    for x in f.all():
        if x.op == 'store':
            a = f.e(x.ops[1])
            if a[0] == 'fld' and a[-1] in nxt and a[-2].startswith('z_stream'):
                if f.e(x.ops[0]) != ('null',):
                    nxt[a[-1]].append(x)
            if a[0] == 'fld' and a[-1] in cnt and a[-2].startswith('z_stream'):
                cnt[a[-1]].append(x)
    reads = [x for x in f.calls() if method(x, 'Read')]
    writes = [x for x in f.calls() if method(x, *WRITES)]
    rd = {f.e(x.ops[1]) for x in reads}
    wr = {f.e(x.ops[1]) for x in writes}
    ni = {f.e(x.ops[0]) for x in nxt['next_in']}
    no = {f.e(x.ops[0]) for x in nxt['next_out']}
    at = (nxt['next_in'] + reads + [None])[0]
    rep.ob('buffers', f.q + ' input', len(rd) == 1 and rd == ni, loc(at) if at else floc(f), 'the library is not given the memory that was read into')
    at = (writes + nxt['next_out'] + [None])[0]
    rep.ob('buffers', f.q + ' output', len(wr) == 1 and wr == no and rd != wr, loc(at) if at else floc(f), 'what is written is not the memory the library fills')
    # the output pointer and the room are set together before every call
    for x in f.calls():
        if P.callee_name(x) != kind:
            continue
        for need in ('next_out', 'avail_out'):
            st = set(nxt.get(need, []) or cnt.get(need, []))
            p = f.path_avoiding(x, lambda y: y is x, lambda y: y in st)
            rep.ob('buffers', '%s %s' % (f.q, need), bool(st) and p is None, loc(x), '%s is not set again before the next call' % need)


# ---------------------------------------------------------------- users of the two directions
def zcalls(P):
    for f in P.functions.values():
        if f.name and (f.q in Z):
            fz = f
        for x in f.calls():
            if P.callee_name(x) in Z and len(x.ops) >= 2:
                yield f, x


def alike(f, a, b):
    """two operands may be the same stream: the same expression or values from a common origin"""
    ea, eb = f.e(a), f.e(b)
    if ea == eb:
        return True
    la, lb = origins(f, a), origins(f, b)
    return bool(la & lb)


def origins(f, o, seen=None):
    seen = set() if seen is None else seen
    e = f.e(o)
    if e[0] != 'phi':
        return {e} if e[0] in ('res', 'phi', 'arg') or e[0] == 'ld' else ({e} if e[0] == 'alloca' else set())
    if e[1] in seen:
        return set()
    seen.add(e[1])
    out = {e}
    x = f.ins.get(e[1])
    for _, v in x.raw['in']:
        out |= origins(f, v, seen)
    return out


PASSIVE = ('GetSize', 'GetPosition', 'Read', 'ReadBuffer', 'Close', 'Size', 'get', 'reset', 'GetMemory', 'GetBytes')


def dtor(P, x):
    q = P.target_qs(x) or {P.callee_name(x) or ''}
    return any(t.split('::')[-1].startswith('~') or t.startswith('operator delete') for t in q)


def rewound(P, f, y, o):
    return method(y, 'Seek') and len(y.ops) > 1 and alike(f, y.ops[0], o) and f.e(y.ops[1]) == ('c', 0) \
        and (len(y.ops) < 3 or f.e(y.ops[2]) == ('c', 0))


def moved(P, f, y, o):
    """the call may leave the stream at another place"""
    if not y.is_call or rewound(P, f, y, o) or dtor(P, y) or method(y, *PASSIVE) or method(y, 'SetSize'):
        return False
    q = P.callee_name(y) or ''
    if q.startswith(('std::', 'llvm.', '__cxa', 'operator new')):
        return False
    return any(isinstance(a, int) and f.e(a)[0] in ('res', 'phi', 'arg', 'ld', 'alloca') and alike(f, a, o) for a in y.ops)


def fresh(P, f, o):
    e = f.e(o)
    if e[0] == 'alloca':
        return True
    if e[0] == 'res':
        q = P.callee_name(f.ins[e[1]]) or ''
        return 'operator new' in q
    return False


def positioned(P, rep):
    for f, x in zcalls(P):
        if f.q in Z:
            continue
        S, D = x.ops[0], x.ops[1]
        for side, o, what in (('source', S, 'is read from'), ('destination', D, 'is written')):
            stop = lambda y, o=o: rewound(P, f, y, o) or side == 'destination' and (method(y, 'SetSize') and alike(f, y.ops[0], o) and f.e(y.ops[1]) == ('c', 0))
            bad = None
            if side == 'source':
                for y in f.calls():
                    if y is not x and moved(P, f, y, o):
                        p = f.path_avoiding(y, lambda z: z is x, stop)
                        if p is not None:
                            bad = 'it was moved at %s' % loc(y)
                            break
            e = f.e(o)
            root = root_of(f, e)
            if bad is None and root is not None:
                # a stream that outlives the function: rewound, replaced, or (re)opened here
                def set_here(y, root=root, e=e):
                    if stop(y):
                        return True
                    if y.op == 'store' and e[0] == 'ld' and f.e(y.ops[1]) == e[1]:
                        return True
                    return y.is_call and method(y, 'open', 'ropen') and any(f.e(a) == root for a in y.ops)
                p = f.path_avoiding(None, lambda z: z is x, set_here)
                if p is not None:
                    bad = 'nothing puts it to its beginning in this function'
            if bad is None and e[0] == 'res' and side == 'source' and not fresh(P, f, o):
                d = f.ins[e[1]]
                if P.targets(d) if hasattr(P, 'targets') else True:
                    p = f.path_avoiding(d, lambda z: z is x, stop)
                    if p is not None and repo_call(P, d):
                        bad = 'it comes from %s' % loc(d)
            if side == 'destination' and root is None:
                continue
            rep.ob('positioned', '%s %s' % (f.q, side), bad is None, loc(x), 'the %s %s from where it happens to stand: %s' % (side, what, bad))


def repo_call(P, d):
    return any(t in P.functions for t in (g.name for g in P.target_fns(d)))


def root_of(f, e):
    """the object behind a stream held in a member (or an argument): not local to the function"""
    if e[0] == 'arg':
        return e
    if e[0] == 'ld' and e[1][0] == 'fld':
        return e[1][1]
    return None


EITHER = ('ZInflateOrCopy', 'TableRecord::try_store_blob_data', 'Field::save_blob_to_file', 'T_1CD::recursive_test_stream_format')


def bases(P):
    """the type descriptions of the decompression error and of what it is derived from"""
    out, todo = set(), ['ZError']
    while todo:
        t = todo.pop()
        out.add(t)
        for fld in P.records.get(t, {}).get('f', []):
            if fld['n'].startswith('<'):
                todo.append(fld['n'].strip('<>'))
    out.add('std::exception')
    return {'_ZTI' + ''.join('%d%s' % (len(c), c) for c in t.split('::')) for t in out if '::' not in t} | {'_ZTISt9exception'}


def fallback(P, rep):
    for f, x in zcalls(P):
        if x.op != 'invoke':
            if f.q in EITHER and P.callee_name(x) == 'ZInflateStream':
                rep.ob('fallback', f.q + ' either way', False, loc(x), 'data that is not compressed ends the work: the failure at %s is not taken care of' % loc(x))
            continue
        S, D = x.ops[0], x.ops[1]
        e = f.e(D)
        env, mem = {}, {'st': 0}
        cellkey = None
        if e[0] in ('phi', 'res') or e[0] == 'arg' or e[0] == 'alloca':
            if isinstance(D, int):
                env[D] = ('D',)
            if e[0] == 'arg':
                env[e[1]] = ('D',)
            elif e[1] != D:
                env[e[1]] = ('D',)
        elif e[0] == 'ld':
            cellkey = e[1]
            mem[cellkey] = ('D',)
        outer = out_param(e)
        srcs = originals(P, f, x, S)
        bad = []

        def hook(ai, fn, y, argv, m, env, bad=bad, srcs=srcs, f=f, e=e):
            if fn is not f:
                return None
            hit = [i for i, a in enumerate(argv) if a == ('D',) or isinstance(y.ops[i], int) and fn.e(y.ops[i]) == e and e[0] in ('ld', 'alloca', 'arg')]
            if not hit or m.get('st') == 3:
                return None
            if dtor(P, y):
                if e[0] != 'alloca' or True:
                    m['st'] = 3
                return None
            if method(y, 'SetSize') and hit == [0] or (hit and hit[0] == 0 and method(y, 'SetSize')):
                m['st'] = 1 if fn.e(y.ops[1]) == ('c', 0) else 0
                return None
            if method(y, 'Seek', 'Close') or (P.callee_name(y) or '').startswith(('std::', 'llvm.')):
                return None
            if y is x or P.callee_name(y) in Z and hit[0] == 1:
                return None if m['st'] else bad.append((y, 'the partial result is kept in front of another one'))
            if method(y, 'CopyFrom') and hit[0] == 0:
                if not m['st']:
                    bad.append((y, 'the original is put behind the partial result'))
                elif not any(alike(fn, y.ops[1], s) for s in srcs):
                    bad.append((y, 'what is taken instead is not the original'))
                elif fn.e(y.ops[2]) != ('c', 0):
                    bad.append((y, 'not all of the original is taken'))
                m['st'] = 2
                return None
            if m['st'] == 0:
                bad.append((y, 'the partial result is used'))
                m['st'] = 3
            return None

        ai = AI(P, call=hook, track=lambda k, c=cellkey: k == c)
        ai.widen = 200
        exits = ai.run(f, mem=mem, edge=(x.bb, x.raw['u'], env))
        kept = []
        for k, v, m in exits:
            m = dict(m)
            if k != 'ret':
                continue
            kept.append(m.get('st'))
            if outer and m.get('st') in (0, 1):
                bad.append((x, 'the function returns %s' % ('the partial result' if m.get('st') == 0 else 'nothing instead of the original')))
            if v == ('D',) and m.get('st') == 0:
                bad.append((x, 'the function returns the partial result'))
        either = f.q in EITHER and P.callee_name(x) == 'ZInflateStream'
        lp = next((y for y in f.blocks[x.raw['u']] if y.op == 'landingpad'), None)
        caught = kept and lp is not None and any(c.get('k') == 'null' or c.get('n', '') in bases(P) for c in lp.raw['cl'])
        if either:
            rep.ob('fallback', f.q + ' either way', bool(caught), loc(x), 'data that is not compressed ends the work: the failure at %s is not taken care of' % loc(x))
        if not kept:
            continue        # the failure is passed on
        if outer and bool_result(f):
            bad = [b for b in bad if b[0] is not x]
        rep.ob('fallback', '%s %s' % (f.q, P.callee_name(x)), not bad, loc(bad[0][0]) if bad else loc(x), 'after a failure at %s: %s' % (loc(x), bad[0][1] if bad else ''))


def bool_result(f):
    return False


def out_param(e):
    return e[0] == 'arg' or e[0] == 'ld' and e[1][0] == 'arg'


def originals(P, f, x, S):
    out = [S]
    for y in f.calls():
        if method(y, 'CopyFrom') and len(y.ops) > 2 and alike(f, y.ops[0], S) and f.e(y.ops[2]) == ('c', 0):
            again = lambda z, y=y: z is not y and method(z, 'CopyFrom', 'SetSize', *WRITES) and alike(f, z.ops[0], S)
            if f.path_avoiding(y, lambda z: z is x, again) is not None:
                out.append(y.ops[1])
    return out

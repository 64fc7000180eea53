"""P01 a database opened without exclusive access is never written to."""
from sa.lib import *
from sa.absint import AI, stdcalls, summary
from sa.report import Broken

ASSUMPTIONS = [
    'the C++ standard library honours the open mode of std::fstream (without `out` nothing is written)',
    'the GUI front end is outside the analysed program (it opens the base through the same class)',
]
VERS = ['8.0.3.0', '8.0.5.0', '8.1.0.0', '8.2.0.0', '8.2.14.0', '8.3.8.0']


def run(P, rep):
    rep.rule('gate', 'every effect of obtaining a page for writing happens only when the base is not read-only', 3)
    rep.rule('layer', 'writable pages are handed out only behind that gate; only the page cache writes to the base file', 4)
    rep.rule('dirty', 'a cached page is marked changed only when it was asked for writing', 1)
    rep.rule('mode', 'after opening, the base is writable only in exclusive mode and never for 8.0.3 / 8.0.5', 6)
    rep.rule('open', 'without exclusive access the file is opened for reading only', 2)
    rep.rule('stream', 'the file stream gives the operating system write access only when asked to create or to write', 4)
    rep.rule('flag', 'nothing but opening the base decides whether it is read-only', 1)
    rep.rule('cli', 'the command line opens the base exclusively only when that was asked for', 3)

    ro = false_field('T_1CD', 'readonly')
    g = rep.need('T_1CD::get_block_for_write')
    # --- gate
    eff = []
    for x in g.calls():
        ts = P.target_qs(x)
        if any(STREAM_WRITE.match(q) for q in ts) or ts & {'MemBlockManager::get_block_for_write', 'T_1CD::get_block_for_write'}:
            eff.append((x, sorted(ts)[0]))
    for x in g.all():
        if x.op == 'store':
            fn_ = fieldname(g.e(x.ops[1]))
            if fn_ and fn_[0] in ('T_1CD', 'v8con'):
                eff.append((x, 'store to ' + fn_[1]))
    for x, what in eff:
        rep.ob('gate', 'T_1CD::get_block_for_write: ' + what, has_fact(x, ro), loc(x),
               'reached without the read-only flag having been tested')
    # --- layer
    for x in P.calls_to('MemBlockManager::get_block_for_write'):
        f = rep.saw(x.fn)
        if f.q == 'MemBlockManager::get_block_for_write':
            continue
        rep.ob('layer', 'writable page in ' + f.q, has_fact(x, ro), loc(x), 'a writable page is handed out without the read-only test')
    own = {('T_1CD', 'fs'), ('MemBlockManager', 'fs')}
    base_stream_fns = {'MemBlock::create', 'MemBlock::write'}
    for f in P.functions.values():
        for x in f.calls():
            ts = P.target_qs(x)
            if not any(STREAM_WRITE.match(q) for q in ts):
                continue
            r = receiver(x)
            fl = [s for s in walk(r) if s[0] == 'fld' and (s[2], s[3]) in own]
            viaarg = f.q.startswith(('MemBlock::', 'MemBlockManager::')) and any(s[0] == 'arg' for s in walk(r))
            if not fl and not viaarg:
                continue
            rep.saw(f)
            inst = '%s: %s' % (f.q, sorted(q.split('::')[-1] for q in ts)[0])
            if f.q == 'T_1CD::get_block_for_write':
                ok, why = has_fact(x, ro), 'no read-only test before it'
            elif f.q == 'MemBlock::create':
                ok = has_fact(x, lambda c: any(c == ('arg', i) or c == ('cmp', 'ne', ('arg', i), ('c', 0)) for i in range(f.nargs) if f.args[i][1] == 'i1'))
                why = 'the base file is written while a page is fetched for reading'
            elif f.q == 'MemBlock::write':
                ok = has_fact(x, true_field('MemBlock', 'changed'))
                why = 'a page that was not changed is written'
            else:
                ok, why = False, 'the base file is written from outside the page cache'
            rep.ob('layer', inst, ok, loc(x), why)
    # the stream of the base must not escape
    for f in P.functions.values():
        for x in f.calls():
            q = P.callee_name(x) or ''
            if q.startswith('std::'):
                continue
            for a in x.ops:
                e = f.e(a)
                if (e[0] == 'fld' and (e[2], e[3]) in own) or (e[0] == 'ld' and e[1][0] == 'fld' and (e[1][2], e[1][3]) in own and x.callee):
                    rep.ob('layer', '%s passes the base stream to %s' % (f.q, q), q in ('MemBlockManager::MemBlockManager', 'MemBlock::create', 'MemBlock::write', 'read_page'), loc(x),
                           'the stream of the base is handed to code that is not the page cache')
    # --- dirty
    for x in P.calls_to('MemBlock::create'):
        f = rep.saw(x.fn)
        k = [i for i, a in enumerate(x.ops) if True]
        bools = [a for a in x.ops if isinstance(a, dict) and a.get('w') == 1 or isinstance(a, int) and f.e(a) and False]
        # for_write is the 4th parameter (after the hidden result and stream, page size, number)
        fw = f.e(x.ops[-2])
        if f.q != 'MemBlockManager::get_block_for_write':
            rep.ob('dirty', 'page created in ' + f.q, fw == ('c', 0), loc(x), 'a page is created for writing outside the gated path')
    for x in P.calls_to('MemBlock::get_block'):
        if len(x.ops) < 2:
            continue
        f = rep.saw(x.fn)
        if f.q != 'MemBlockManager::get_block_for_write':
            rep.ob('dirty', 'page fetched in ' + f.q, f.e(x.ops[1]) == ('c', 0), loc(x), 'a page is marked changed outside the gated path')
    for x in stores(P, 'MemBlock', 'changed'):
        f = rep.saw(x.fn)
        v = f.e(x.ops[0])
        if v == ('c', 0):
            continue
        ok = f.q == 'MemBlock::get_block' and (has_fact(x, lambda c: c in (('arg', 1), ('cmp', 'ne', ('arg', 1), ('c', 0)))) or v == ('arg', 1))
        if f.q == 'MemBlock::get_block' and not ok:
            # changed = changed || for_write
            ok = v[0] == 'phi' or any(s == ('arg', 1) for s in walk(v))
        rep.ob('dirty', 'changed set in ' + f.q, ok, loc(x), 'a page is marked changed although it was not asked for writing')
    # --- mode
    op = rep.need('T_1CD::open')
    key = ('fld', ('arg', 0), 'T_1CD', 'readonly')
    for ver in VERS:
        for mono in (0, 1):
            got = open_outcome(P, op, key, ver, mono)
            ok = got and all(v is not None for v in got) and (got <= {1} if (not mono or ver in VERS[:2]) else True)
            rep.ob('mode', 'version %s, exclusive=%d' % (ver, mono), ok, floc(op),
                   'opening ends with read-only = %s' % sorted(map(str, got)) if got else 'opening never succeeds')
    # --- flag
    for x in stores(P, 'T_1CD', 'readonly'):
        f = rep.saw(x.fn)
        if f.q == 'T_1CD::set_readonly':
            cs = P.calls_to('T_1CD::set_readonly')
            bad = [c for c in cs if c.fn.e(c.ops[1]) != ('c', 1)]
            rep.ob('flag', 'T_1CD::set_readonly', not bad, loc(bad[0]) if bad else loc(x), 'the flag is changed after opening')
            continue
        v = f.e(x.ops[0])
        rep.ob('flag', f.q, f.q == 'T_1CD::open' or v == ('c', 1), loc(x), 'the read-only flag is changed outside opening')
    # --- open: the mode given to the stream
    opened = [x for x in op.calls() if (P.callee_name(x) or '') == NS + 'TFileStream::TFileStream']
    if not opened:
        raise Broken('T_1CD::open creates no file stream')
    modes = {0: set(), 1: set()}
    for mono in (0, 1):
        def on(fn, x, argv, m):
            if x in opened:
                modes[mono].add(argv[2])
        AI(P, call=stdcalls, on=on, limit=200000, track=lambda e: e[0] == 'alloca' or e == key).run(op, {2: mono})
    ctors = P.fns(NS + 'TFileStream::TFileStream')
    for m in sorted(modes[0], key=str):
        bits = set()
        for c in ctors:
            bits |= open_bits(P, c, m)
        rep.ob('open', 'mode given to the stream without exclusive access', m is not None and not any(b is None or b & (16 | 32 | 1) for b in bits), loc(opened[0]),
               'mode %s makes the stream open the base for writing (%s)' % (m, bits))
    for m in sorted(modes[1], key=str):
        bits = set()
        for c in ctors:
            bits |= open_bits(P, c, m)
        rep.ob('open', 'mode given to the stream with exclusive access keeps the contents', m is not None and not any(b is None or b & 32 for b in bits), loc(opened[0]),
               'mode %s truncates the base' % m)
    # --- stream: fmOpenRead(0) | any share flag -> no out ; 1,2 -> out, no trunc ; create -> out|trunc
    for c in ctors:
        rep.saw(c)
        kind = 'string' if 'string' in c.d else 'path'
        for mode, want, no, txt in ((0, 0, 16 | 32 | 1, 'open for reading'), (0x40, 0, 16 | 32 | 1, 'open for reading, shared'),
                                    (0x22, 16, 32, 'open for reading and writing'), (0xFFFF, 16 | 32, 0, 'create')):
            b = open_bits(P, c, mode)
            ok = b and all(v is not None and v & want == want and not v & no for v in b)
            rep.ob('stream', '%s (%s)' % (txt, kind), ok, floc(c), 'the file is opened with mode bits %s' % sorted(map(str, b)))
    # reopening uses no other mode
    for x in P.calls_to(rx(r'^(std::make_shared|boost::filesystem::basic_fstream<.*>::(open|basic_fstream))$')):
        f = x.fn
        if f.q.startswith(NS + 'TFileStream::') and f not in ctors and f.q != NS + 'TFileStream::open_stream':
            e = f.e(x.ops[-1])
            src = e if e[0] != 'alloca' else None
            vals = {f.e(s.ops[0]) for s in f.users[e[1]] if s.op == 'store'} if e[0] == 'alloca' else {e}
            ok = all(is_field_load(v, NS + 'TFileStream', 'reopen_mode') or is_field_load(v, 'System::Classes::TFileStream', 'reopen_mode') or v[0] == 'c' and not v[1] & (16 | 32 | 1) for v in vals)
            rep.ob('stream', 'reopening in ' + f.q, ok, loc(x), 'the file is reopened with another mode: %s' % [show(v, f) for v in vals])
    for x in stores(P, NS + 'TFileStream', 'reopen_mode'):
        f = x.fn
        v = f.e(x.ops[0])
        rep.ob('stream', 'mode kept for reopening in ' + f.q, f in ctors, loc(x), 'the mode is changed after opening')
    # --- cli
    for x in P.calls_to('T_1CD::T_1CD'):
        f = rep.saw(x.fn)
        if len(x.ops) < 4:
            continue
        v = f.e(x.ops[3])
        ok = v == ('c', 0) or (v[0] == 'not' and is_field_load(v[1], 'App', 'ActionOpenBaseNotMonopolyChecked')) or \
            (v[0] == 'cmp' and v[1] == 'eq' and ('c', 0) in v and any(is_field_load(s, 'App', 'ActionOpenBaseNotMonopolyChecked') for s in v[2:]))
        rep.ob('cli', 'access asked for in ' + f.q, ok, loc(x), 'exclusive access does not follow the option: %s' % show(v, f))
    ctor = rep.need('T_1CD::T_1CD', lambda f: f.nargs >= 4)
    for x in ctor.calls():
        if 'T_1CD::open' in P.target_qs(x):
            rep.ob('cli', 'the access asked for reaches opening', ctor.e(x.ops[2]) == ('arg', 3), loc(x), 'another value is passed on')
    en = {v: n for n, v in enum_values(P, 'Command').items()}
    for x in stores(P, 'App', 'ActionOpenBaseNotMonopolyChecked'):
        f = rep.saw(x.fn)
        v = f.e(x.ops[0])
        if v == ('c', 1):
            names = set()
            for c in facts(x):
                if c[0] == 'cmp' and c[1] == 'eq':
                    for s in c[2:]:
                        if s[0] == 'c':
                            names.add(en.get(s[1]))
                elif c[0] == 'in':
                    names |= {en.get(k) for k in c[2]}
            rep.ob('cli', 'the option sets non-exclusive access', 'not_exclusively' in names, loc(x), 'set for %s' % names)
        else:
            ok = f.q.startswith('App::App')
            rep.ob('cli', 'exclusive access reset in ' + f.q, ok, loc(x), 'the option is undone')


def open_outcome(P, op, key, ver, mono):
    """values of the read-only flag at the normal returns of opening, for a header of the given version"""
    verkey = ('fld', ('arg', 0), 'T_1CD', 'ver')

    def call(ai, fn, x, argv, m, env):
        q = P.callee_name(x) or ''
        if q == 'T_1CD::init':
            m[key] = 1
            return (None,)
        if q in ('std::operator==', 'std::operator!=') or q.endswith('::compare'):
            es = [fn.e(a) for a in x.ops]
            if any(mentions_field(e, 'T_1CD', 'ver') for e in es):
                lit = [e[1] for e in es if e[0] == 's']
                if lit:
                    eq = lit[0] == ver
                    if q.endswith('compare'):
                        return (0 if eq else 1,)
                    return (int(eq if q.endswith('==') else not eq),)
        return stdcalls(ai, fn, x, argv, m, env)
    ai = AI(P, call=call, limit=400000, track=lambda e: e == key or e == ('fld', ('arg', 0), 'T_1CD', 'version'))
    return {dict(m).get(key) for k, v, m in ai.run(op, {2: mono}) if k == 'ret'}


def open_bits(P, ctor, mode):
    """open-mode bits that reach the fstream in a constructor, for a given mode argument"""
    got = set()

    def on(fn, x, argv, m):
        if x.is_call and (P.callee_name(x) or '').startswith(('std::make_shared', 'boost::filesystem::basic_fstream', 'std::basic_fstream')) and fn is ctor:
            n = P.callee_name(x)
            if not (n == 'std::make_shared' or n.endswith(('::basic_fstream', '::open'))):
                return
            k = fn.e(x.ops[-1])
            v = m.get(k) if k[0] in ('alloca', 'fld') else argv[-1]
            got.add(v)
    AI(P, call=stdcalls, on=on).run(ctor, {2: mode})
    return got
